"""C08 parameter binding."""
from symx.lib import *  # noqa
from symx.anyvalue import any_checks

PROP = "C08"
ASSUMPTIONS = ["argument values and defaults are opaque objects; the host's own binding of the same signature is the reference",
               "functions are compiled for each version by symx/pyc.py (functions with tuple parameters are assembled)",
               "the wording of the TypeError is not compared"]
BOUNDS = ("signatures of up to 3 positional, 2 positional-only and 2 keyword-only parameters with every default pattern, "
          "*args and **kwargs present or not; for each, every call with 0..4 positional arguments and every subset of the "
          "parameter names plus one unknown name (and the names of *args/**kwargs) as keywords; tuple parameters of two "
          "elements and nested for 2.x")


def signatures():
    """(signature, names, lo version) with defaults D0.."""
    out = []

    def pos(n, d, names="abc"):
        return [x if i < n - d else "%s=D%s" % (x, x) for i, x in enumerate(names[:n])]
    for n in range(4):
        for d in range(n + 1):
            for va in (0, 1):
                for kw in (0, 1):
                    out.append((pos(n, d) + ["*args"] * va + ["**kws"] * kw, None))
    for n, d in [(0, 0), (1, 0), (1, 1), (2, 1)]:
        for star in ("*", "*args"):
            for ko in (["k"], ["k=Dk"], ["k", "m=Dm"], ["k=Dk", "m"], ["k", "m"], ["k=Dk", "m=Dm"]):
                for kw in (0, 1):
                    if n == 2 and kw:
                        continue
                    out.append((pos(n, d) + [star] + ko + ["**kws"] * kw, (3, 1)))
    for po in (["p"], ["p=Dp"], ["p", "q"], ["p", "q=Dq"]):
        for rest in ([], ["a=Da"], ["*args"], ["**kws"], ["a=Da", "**kws"], ["*", "k"], ["*args", "k=Dk", "**kws"]):
            out.append((po + ["/"] + rest, (3, 8)))
    out.append((["p", "/", "a"], (3, 8)))
    out.append((["p", "/", "a", "*", "k"], (3, 8)))
    return out


def pnames(sig):
    return [s.split("=")[0].lstrip("*") for s in sig if s not in ("*", "/")]


def bind(v, sig, lam=False):
    names = pnames(sig)
    body = "(" + "".join(n + ", " for n in names) + ")"
    if "kws" in names:
        body = body.replace("kws", "sorted(kws.items())")
    if lam:
        src = "f = lambda %s: (ev('body'), %s)\n" % (", ".join(sig), body)
    else:
        src = "def f(%s):\n    ev('body')\n    return %s\n" % (", ".join(sig), body)
    src += "R = f(*A, **K)\n"
    kwnames = [n for n in names if n != "args"] + ["zz"]

    def extra(e):
        ctx = e.ctx
        ns = {"D" + n: ctx.obj("D" + n) for n in names}
        ns["A"] = tuple(ctx.obj("arg%d" % i) for i in range(ctx.choose("npos", range(5))))
        ns["K"] = {n: ctx.obj("kw." + n) for n in kwnames if ctx.bool("kw_" + n)}
        return ns

    def fn(ctx):
        got, want = run_src(ctx, v, src, None, ("R",), extra)
        ctx.same(got, want, "binding")
    assert supported(v, src), (v, src)
    return H("%s/%sdef(%s)" % (v, "lambda-" if lam else "", ", ".join(sig)), fn, str(v))


# Python 2 tuple parameters ----------------------------------------------------
def tuple_param(v, hid, npos, shape, argnames, refsrc, defaults=False):
    """def f(a, (b, c)): the hidden parameter is unpacked by the function's first
    instructions."""
    body = [("LOAD_GLOBAL", N("ev")), ("LOAD_CONST", K("body")), ("CALL_FUNCTION", 1), ("POP_TOP",)]

    def unpack(s):
        out = [("UNPACK_SEQUENCE", len(s))]
        for x in s:
            out += unpack(x) if isinstance(x, tuple) else [("STORE_FAST", V(x))]
        return out
    pre = []
    flat = []

    def flatten(s):
        for x in s:
            flatten(x) if isinstance(x, tuple) else flat.append(x)
    for a, s in shape:
        pre += [("LOAD_FAST", V(a))] + unpack(s)
        flatten(s)
    shown = [a for a in argnames if not a.startswith(".")] + flat
    fcode = make(v, pre + body + [("LOAD_FAST", V(n)) for n in shown] + [("BUILD_TUPLE", len(shown)), ("RETURN_VALUE",)],
                 varnames=tuple(argnames) + tuple(flat), argcount=len(argnames), flags=CO_OPTIMIZED | CO_NEWLOCALS, name="f")
    nd = 1 if defaults else 0
    code = make(v, ([("LOAD_NAME", N("Dz"))] if nd else []) + [("LOAD_CONST", K(fcode)), ("MAKE_FUNCTION", nd),
                                                               ("LOAD_NAME", N("A")), ("LOAD_NAME", N("K")),
                                                               ("CALL_FUNCTION_VAR_KW", 0),
                                                               ("STORE_NAME", N("R")), ("LOAD_CONST", K(None)), ("RETURN_VALUE",)])

    def fn(ctx):
        def run(on):
            e = Env(ctx)
            ns = e.ns()
            xs = []
            for i in range(ctx.choose("npos", range(npos + 2))):
                kind = ctx.choose("arg%d" % i, ["obj", "pair", "nested", "triple", "one", "str"])
                o = [ctx.obj("x%d%d" % (i, j)) for j in range(4)]
                xs.append({"obj": 5, "pair": (o[0], o[1]), "nested": [o[0], (o[1], o[2])], "triple": (o[0], o[1], o[2]),
                           "one": [o[0]], "str": "xy"}[kind])
            ns["A"] = tuple(xs)
            ns["K"] = {k: ctx.obj("kw" + k) for k in ("a", "b") if ctx.bool("kw_" + k)}
            ns["Dz"] = (ctx.obj("dz0"), ctx.obj("dz1"))
            if on:
                execute(v.vm(), code, ns, ns)
            else:
                exec(refsrc, ns)
            return ns["R"]
        ctx.same(ctx.run(lambda: run(1)), ctx.run(lambda: run(0)), "binding")
    return H("%s/tuple-%s" % (v, hid), fn, str(v))


def tuples(v):
    # the hidden name `.0` cannot be written; a name no keyword has stands for it in the reference
    return [
        tuple_param(v, "(b,c)", 1, [(".0", ("b", "c"))], (".0",), "def f(_0):\n    b, c = _0\n    ev('body')\n    return (b, c)\nR = f(*A, **K)\n"),
        tuple_param(v, "a,(b,c)", 2, [(".1", ("b", "c"))], ("a", ".1"),
                    "def f(a, _1):\n    b, c = _1\n    ev('body')\n    return (a, b, c)\nR = f(*A, **K)\n"),
        tuple_param(v, "a,(b,(c,d))", 2, [(".1", ("b", ("c", "d")))], ("a", ".1"),
                    "def f(a, _1):\n    b, (c, d) = _1\n    ev('body')\n    return (a, b, c, d)\nR = f(*A, **K)\n"),
        tuple_param(v, "a,(b,c)=D", 2, [(".1", ("b", "c"))], ("a", ".1"),
                    "def f(a, _1=Dz):\n    b, c = _1\n    ev('body')\n    return (a, b, c)\nR = f(*A, **K)\n", True),
    ]


SRC = {
    "methods": '''
class C(object):
    def m(self, a, b=2, *c, **d): return (self is o, a, b, c, sorted(d.items()))
    @classmethod
    def c(cls, a, b=2, *c, **d): return (cls is C, a, b, c, sorted(d.items()))
    @staticmethod
    def s(a, b=2, *c, **d): return (a, b, c, sorted(d.items()))
o = C()
R = []
for k in range(n(1, 0, 3)):
    pass
A = tuple(range(n(2, 0, 3)))
K = {}
if c(1): K["b"] = 7
if c(2): K["a"] = 8
if c(3): K["self"] = 9
for f in (o.m, o.c, o.s, C.c, C.s):
    try:
        R.append(f(*A, **K))
    except TypeError:
        R.append("te")
''',
    "named-like-internals": '''
def f(func=1, positional=2, named=3, self=4, args=5, kwargs=6): return (func, positional, named, self, args, kwargs)
def g(**k): return sorted(k.items())
K = {}
if c(1): K["func"] = "a"
if c(2): K["self"] = "b"
if c(3): K["positional"] = "c"
if c(4): K["args"] = "d"
if c(5): K["func_and_positional"] = "e"
R = [g(**K)]
try:
    R.append(f(**K))
except TypeError:
    R.append("te")
''',
    "defaults-are-shared": '''
def f(a, acc=[]):
    acc.append(a)
    return list(acc)
R = [f(i) for i in range(n(1, 0, 3))]
if c(1): R.append(f(9, ["x"]))
R.append(f(10))
''',
    "falsy-and-odd-defaults": '''
def f(a=None, b=0, c=(), d="", e=False): return (a, b, c, d, e)
R = [f(), f(1), f(c=3), f(*[1, 2, 3]), f(e=5, a=6)]
def g(x=Ellipsis, y=NotImplemented, z=type): return (x, y, z)
R.append(g())
R.append(g(z=1))
''',
    "kw-dict-is-a-copy": '''
K = {"a": 1}
def f(**k):
    k["b"] = 2
    return sorted(k.items())
R = [f(**K), sorted(K.items()), f(**K)]
def g(*a): return a
L = [1, 2]
t = g(*L)
L.append(3)
R.append((t, type(t) is tuple))
''',
    "kwonly-falsy": ('''
def f(*, k=None, m=0): return (k, m)
K = {}
if c(1): K["k"] = 1
if c(2): K["m"] = False
R = [f(**K)]
def g(a, *r, k): return (a, r, k)
for A in ((), (1,), (1, 2)):
    try:
        R.append(g(*A, **K))
    except TypeError:
        R.append("te")
''', None, {"lo": (3, 1)}),
    "unbound-self": '''
class C(object):
    def m(self, x): return ("m", self is o, x is o, x == 1)
o = C()
R = []
A = (o, 1, 2)[:n(1, 0, 3)]
for f in (C.m, o.m, C().m):
    try:
        R.append(f(*A))
    except TypeError:
        R.append("te")
''',
    "function-attributes": '''
def f(a, b=1): return (a, b)
f.note = "x"
R = [f(5), f.note]
def deco(g):
    def w(*a, **k):
        return ("w", g(*a, **k))
    w.__wrapped__ = g
    return w
@deco
def h(x, y): return (x, y)
A = (1, 2, 3)[:n(1, 0, 3)]
try:
    R.append(h(*A))
except TypeError:
    R.append("te")
''',
    "default-changed": '''
def f(a, b=1): return (a, b)
R = [f(0)]
f.__defaults__ = (5, 6)
if c(1): R.append(f())
if c(2): f.__defaults__ = None
try:
    R.append(f(1))
except TypeError:
    R.append("te")
''',
    "code-changed": ('''
def f(a, b=1): return ("f", a, b)
def g(a): return ("g", a)
R = [f(0)]
f.__code__ = g.__code__
for A in ((), (1,), (1, 2)):
    try:
        R.append(f(*A))
    except TypeError:
        R.append("te")
''', None, {"lo": (2, 6)}),
    "lambda-and-nested": '''
def outer(a, b=2):
    def inner(c=a, *d): return (a, b, c, d)
    return inner
f = outer(n(1))
R = [f(), f(5), f(5, 6), outer(1, 3)(), (lambda x, y=4: (x, y))(1), (lambda *a: a)(1, 2), (lambda **k: k)(z=1)]
''',
    "generators-bind-at-call": '''
def g(a, b=2):
    ev("started")
    yield (a, b)
R = []
A = (1, 2, 3)[:n(1, 0, 3)]
try:
    i = g(*A)
    ev("made")
    R.append(list(i))
except TypeError:
    R.append("te")
''',
    "comprehension-arguments": '''
R = [[x for x in range(n(1))], list(x for x in range(2)), sorted({k: 1 for k in (1, 2)})]
''',
}


def harnesses():
    hs = []
    for v in ALL:
        for sig, lo in signatures():
            if lo and v < lo:
                continue
            hs.append(bind(v, sig))
        for sig in (["a"], ["a", "b=Db"], ["*args", "**kws"], ["a=Da", "*args"]):
            hs.append(bind(v, sig, True))
        if v < (3, 0):
            hs += tuples(v)
    hs += any_checks(PROP, ALL)
    return hs + src_checks(ALL, SRC, prefix="src-")
