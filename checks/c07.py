"""C07 calls deliver the written arguments."""
from symx.lib import *  # noqa
from symx.anyvalue import any_checks

PROP = "C07"
ASSUMPTIONS = ["argument values are opaque objects; the callee records what it gets and may symbolically raise or return",
               "call sites are compiled for each version by symx/pyc.py (PyPy: its own instructions are assembled directly)",
               "in which order `*` and `**` operands are unpacked is compared only where all versions agree",
               "PyPy 3.5 and 3.6 use CPython 3.5's call instructions (as the repository's bytecode files for them do)"]
BOUNDS = ("every call form with 0..4 positional, 0..3 keyword arguments, `*` of symbolic length <= 2 and `**` of 0..2 keys "
          "with and without duplicates, non-iterables, non-mappings and non-string keys; 255 positional arguments; native "
          "and interpreted functions, methods, classes and instances as callees")


class Rec:
    """a callee that records its arguments"""

    def __init__(self, env, k="f"):
        self.env, self.k = env, k

    def __call__(self, *a, **k):
        self.env.ctx.event("called", self.k, a, tuple(k.items()))
        self.env.fault("call", self.k)
        return Obj(("result",))


class Nat:
    def __init__(self, env):
        self.r = Rec(env, "nat.m")

    def m(self, *a, **k):
        return (self is not None, self.r(*a, **k))

    @classmethod
    def cm(cls, *a, **k):
        return (cls.__name__, a, tuple(k.items()))

    @staticmethod
    def sm(*a, **k):
        return (a, tuple(k.items()))


class Map:
    def __init__(self, env, d):
        self.env, self.d = env, d

    def keys(self):
        self.env.step("keys", 0)
        return list(self.d)

    def __getitem__(self, k):
        self.env.step("getkey", k)
        return self.d[k]


PRE = '''
def g(*a, **k):
    return f(*a, **k)
def one(x, y=7):
    return (x, y)
class C(object):
    def __init__(self, *a, **k):
        self.got = f(*a, **k)
class O(object):
    def m(self, *a, **k):
        return (self is o, f(*a, **k))
    def __call__(self, *a, **k):
        return (self is o, f(*a, **k))
    def s(*a, **k):
        return f(*a, **k)
    s = staticmethod(s)
    def cl(cls, *a, **k):
        return (cls is O, f(*a, **k))
    cl = classmethod(cl)
o = O()
lam = lambda *a, **k: ("lam", f(*a, **k))
'''
CALLEES = ["f", "g", "o.m", "o", "o.s", "O.cl", "lam", "nat.m", "nat.cm", "C", "O.m"]


def star_value(ctx, e, few):
    kind = ctx.choose("star", ["list", "it", "int"] if few else ["list", "tuple", "it", "str", "int"])
    if kind == "int":
        return 5
    if kind == "it":
        return e.it("s", 2)
    xs = [ctx.obj("s%d" % i) for i in range(ctx.choose("nstar", range(3)))]
    return {"list": xs, "tuple": tuple(xs), "str": "xy"[:len(xs)]}[kind]


def dstar_value(ctx, e, few):
    kind = ctx.choose("dstar", ["dict", "map", "int"] if few else ["dict", "map", "int", "intkey", "list"])
    ks = () if kind in ("int", "intkey", "list") else ctx.choose("dkeys", [(), ("z", "y"), ("k0",)] if few else [
        (), ("z",), ("z", "y"), ("k0",), ("z", "k1"), ("y", "z")])
    d = {k: ctx.obj("d." + k) for k in ks}
    return {"dict": d, "map": Map(e, d), "int": 5, "intkey": {5: 6}, "list": [("a", 1)]}[kind]


def form(callee, npos, nkw, star, dstar):
    args = ["a%d" % i for i in range(npos)] + ["k%d=b%d" % (i, i) for i in range(nkw)]
    if star:
        args.append("*s")
    if dstar:
        args.append("**d")
    return "%s(%s)" % (callee, ", ".join(args))


def call(v, callee, npos, nkw, star, dstar):
    src = PRE
    if callee == "C":
        src += "x = " + form("C", npos, nkw, star, dstar) + "\nR = (type(x) is C, x.got)\n"
    elif callee == "O.m":
        src += "a0 = o\nR = " + form("O.m", npos, nkw, star, dstar) + "\n"
    else:
        src += "R = " + form(callee, npos, nkw, star, dstar) + "\n"
    both = star and dstar
    faults = {"call": (E1,)}
    if not both:
        faults.update({"next": (E1,), "iter": (E1,), "keys": (E1,), "getkey": (E1,)})

    def extra(e):
        ctx = e.ctx
        ns = {"a%d" % i: ctx.obj("a%d" % i) for i in range(npos)}
        ns.update({"b%d" % i: ctx.obj("b%d" % i) for i in range(nkw)})
        ns.update(f=Rec(e), nat=Nat(e))
        if star:
            ns["s"] = star_value(ctx, e, both)
        if dstar:
            ns["d"] = dstar_value(ctx, e, both)
        return ns

    def fn(ctx):
        got, want = run_src(ctx, v, src, faults, ("R",), extra)
        if both or v < (3, 9):
            # unpacking steps of several operands interleave differently
            got.events = [x for x in got.events if x[0] == "called"]
            want.events = [x for x in want.events if x[0] == "called"]
        ctx.same(got, want, "arguments")
    assert supported(v, src), (v, src)
    return H("%s/%s" % (v, form(callee, npos, nkw, star, dstar)), fn, str(v))


# single instructions -------------------------------------------------------
def instr(v, hid, body, order, npos, kws, method=False):
    """Assembled call instructions; `order` is what is loaded, bottom to top."""
    def fn(ctx):
        def env():
            e = Env(ctx, {"call": (E1,), "getattr": (AttributeError, E1)})
            d = {"p%d" % i: ctx.obj("p%d" % i) for i in range(npos)}
            d.update({"w" + k: ctx.obj("w" + k) for k in kws})
            d["f"] = Rec(e)
            d["o"] = Holder(e)
            return d
        code = program(v, body, order, 1)

        def vm():
            l = dict(env(), _sentinel=SENT)
            r = execute(v.vm(), code, None, l)
            if type(r) is not tuple or not r or r[0] is not SENT:
                return ("stack-corrupted", r)
            return r[1]

        def host():
            e = env()
            f = e["o"].a_m if method else e["f"]
            return f(*[e["p%d" % i] for i in range(npos)], **{k: e["w" + k] for k in kws})
        ctx.same(ctx.run(vm), ctx.run(host), "arguments")
    return H("%s/%s" % (v, hid), fn, str(v))


class Holder:
    def __init__(self, env):
        self.__dict__["env"] = env

    def __getattr__(self, name):
        if not name.startswith("a_"):
            raise AttributeError(name)
        self.env.step("getattr", name)
        return Rec(self.env, "o." + name)


def pypy_checks(v):
    hs = []
    look = "LOOKUP_METHOD" if v.has("LOOKUP_METHOD") else "LOAD_METHOD"
    for npos in range(4):
        ps = ["p%d" % i for i in range(npos)]
        if v.has(look) and v.has("CALL_METHOD"):
            hs.append(instr(v, "CALL_METHOD-%d" % npos,
                            [("LOAD_NAME", N("o")), (look, N("a_m"))] +
                            [("LOAD_NAME", N(p)) for p in ps] + [("CALL_METHOD", npos)], [], npos, (), True))
        if v.has("CALL_METHOD_KW"):
            for nkw in range(1, 4):
                kws = ["k%d" % i for i in range(nkw)]
                hs.append(instr(v, "CALL_METHOD_KW-%d-%d" % (npos, nkw),
                                [("LOAD_NAME", N("o")), (look, N("a_m"))] +
                                [("LOAD_NAME", N(p)) for p in ps] + [("LOAD_NAME", N("w" + k)) for k in kws] +
                                [("LOAD_CONST", K(tuple(kws))), ("CALL_METHOD_KW", npos + nkw)], [], npos, kws, True))
    return hs


SRC = {
    "nested": ('''
def g(*a, **k): return (a, sorted(k.items()))
R = []
try:
    R.append(g(ev(1), g(ev(2), k=ev(3)), k=g(ev(4))))
except E1:
    R.append("e")
R.append(g(g(), g(1), *g(2), **dict(x=g(3))))
''', {"ev": (E1,)}),
    "builtins": '''
a, b = n(1), n(2)
R = [max(a, b), max([a, b, 1], key=lambda x: -x), dict(x=a, y=b), sorted([b, a, 1], reverse=c(1)),
     int("12", base=a + 3), list(map(lambda x, y: x + y, [a], [b])), len("abc"), isinstance(a, int),
     "{0} {k}".format(a, k=b), [x for x in zip([a], [b])], sum([a, b], 5), str(a), tuple([b]), getattr([], "x", a)]
''',
    "partial": '''
import functools
def f(*a, **k): return (a, sorted(k.items()))
p = functools.partial(f, n(1), x=n(2))
R = [p(), p(3), p(y=4), p(5, x=6)]
''',
    "callable-results": '''
def mk(i):
    def h(*a): return (i, a)
    return h
class K:
    def __call__(self, *a): return mk(a)
R = [mk(n(1))(n(2)), K()(1)(2), (lambda: mk)()(3)(4), [mk][0](5)(6), {"x": mk}["x"](7)(8)]
''',
    "many": ('''
def f(*a): return (len(a), a[0], a[-1])
x = n(1)
R = f(%s)
''' % ", ".join(["x"] + [str(i) for i in range(253)] + ["x"])),
    "very-many": ('''
def f(*a): return (len(a), a[0], a[-1])
x = n(1)
R = f(%s)
''' % ", ".join(["x"] + [str(i) for i in range(300)] + ["x"]), None, {"lo": (3, 7)}),
    "many-keywords": ('''
def f(**k): return (len(k), k["k0"], k["k99"])
x = n(1)
R = f(%s)
''' % ", ".join("k%d=%s" % (i, "x" if i % 99 == 0 else i) for i in range(100))),
    "star-forms": ('''
def f(*a, **k): return (a, list(k.items()))
s = [1, 2][:n(1)]
t = (5,)
d = {"z": n(2)}
R = [f(*s, *t), f(0, *s, 3, *t, k=4), f(**d, **{"y": 1}), f(*s, **d), f(*s, k=1, **d), f(k=1, *s, **d, j=2)]
for bad in [lambda: f(**d, **d), lambda: f(z=1, **d), lambda: f(*5), lambda: f(**5), lambda: f(**{1: 2}),
            lambda: f(*s, *None), lambda: f(**d, **[1])]:
    try:
        R.append(bad())
    except TypeError:
        R.append("te")
''', None, {"lo": (3, 5)}),
    "not-callable": '''
R = []
for x in (5, None, "s", [1], object()):
    try:
        x(n(1))
    except TypeError:
        R.append("te")
''',
    "exception-then-call": ('''
def f(*a, **k): return (ev("in", a), list(k.items()))
R = []
for i in (1, 2, 3):
    try:
        R.append(f(i, k=i))
        R.append(f(ev("arg"), k=ev("kw")))
    except E1:
        R.append("e")
''', {"ev": (E1,)}),
    "method-forms": '''
class A(object):
    def __init__(self, x): self.x = x
    def m(self, *a, **k): return (self.x, a, sorted(k.items()))
    def __getattr__(self, name): return lambda *a: (name, a)
a = A(n(1))
b = a.m
R = [a.m(), a.m(1), a.m(1, k=2), b(3), A.m(a, 4), a.other(5), a.m(*[6], **{"j": 7}), A(8).m(9), getattr(a, "m")(10)]
a.f = lambda *a: ("inst", a)
R += [a.f(1), a.f(*[1, 2])]
''',
    "recursion": '''
def fact(k): return 1 if k < 2 else k * fact(k - 1)
def even(k): return k == 0 or odd(k - 1)
def odd(k): return k != 0 and even(k - 1)
R = [fact(n(1, 0, 5)), even(n(2, 0, 5))]
''',
    "decorators": ('''
def deco(*a):
    ev("make", a)
    def d(f):
        ev("deco", a)
        return lambda *x: (a, f(*x))
    return d
R = []
try:
    @deco(1, 2)
    @deco()
    def h(x): return x
    R.append(h(ev("x")))
except E1:
    R.append("e")
''', {"ev": (E1,)}),
}


def harnesses():
    hs = []
    for v in ALL:
        for npos in range(5):
            for nkw in range(4):
                for star in (0, 1):
                    for dstar in (0, 1):
                        if npos > 2 and nkw > 1 and (star or dstar):
                            continue
                        hs.append(call(v, "f", npos, nkw, star, dstar))
        for callee in CALLEES[1:]:
            for npos, nkw, star, dstar in [(0, 0, 0, 0), (1, 0, 0, 0), (2, 1, 0, 0), (1, 2, 0, 0), (1, 0, 1, 0),
                                           (1, 1, 0, 1), (2, 1, 1, 1)]:
                if callee == "O.m" and not npos:
                    continue
                hs.append(call(v, callee, npos, nkw, star, dstar))
        if v.pypy:
            hs += pypy_checks(v)
    hs += any_checks(PROP, ALL)
    return hs + src_checks(ALL, SRC, prefix="src-")
