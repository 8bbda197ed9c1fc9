"""C09 function objects."""
from symx.lib import *  # noqa
from symx.anyvalue import any_checks

PROP = "C09"
ASSUMPTIONS = ["definitions are compiled for each version by symx/pyc.py; the host's function object for the same definition "
               "is the reference", "before 3.4 keyword-only defaults are evaluated before the positional ones, as in CPython; "
               "the order of evaluation is not compared there", "an absent defaults tuple or dictionary may be None or empty"]
BOUNDS = ("definitions with 0..3 positional, 0..2 keyword-only parameters, all default patterns, annotations on none, some "
          "or all parameters and the return value, 0..2 captured variables, as def, lambda and method; default and annotation "
          "values are opaque and their evaluation may raise")


def definition(v, hid, params, ret=False, closure=0, kind="def", doc=False):
    """params: [(name, kind, default?, annotation?)]"""
    src, star = [], False
    for n, k, d, a in params:
        if k == "kwonly" and not star:
            src.append("*")
            star = True
        if k == "var":
            star = True
        s = {"var": "*", "kw": "**"}.get(k, "") + n
        if a:
            s += ": ev('ann', '%s', o_%s)" % (n, n) if False else ": A('%s')" % n
        if d:
            s += "=D('%s')" % n
        src.append(s)
    sig = ", ".join(src)
    names = [n for n, k, d, a in params]
    free = ["w%d" % i for i in range(closure)]
    body = "(" + "".join(n + ", " for n in names + free) + ")"
    body = body.replace("kws,", "sorted(kws.items()),")
    arrow = " -> A('return')" if ret else ""
    docs = "        'the doc'\n" if doc else ""
    pre = "def outer(%s):\n" % ", ".join(free)
    if kind == "def":
        mk = "    def f(%s)%s:\n%s        ev('body')\n        return %s\n    F.append(f)\n" % (sig, arrow, docs, body)
    elif kind == "lambda":
        mk = "    f = lambda %s: (ev('body'), %s)\n    F.append(f)\n" % (sig, body)
    else:
        mk = "    class C(object):\n        def f(%s)%s:\n    %s            ev('body')\n            return %s\n    F.append(C.__dict__['f'])\n" % (
            sig, arrow, docs, body)
    post = "".join("    %s = (%s, 'changed')\n" % (w, w) for w in free)
    src = ("F = []\n" + pre + mk + post + "R = []\n"
           "try:\n    outer(%s)\nexcept E1:\n    R.append('e')\n" % ", ".join("ev('w%d')" % i for i in range(closure)) +
           "for f in F:\n"
           "    R.append((f.__name__, f.__doc__))\n"
           "    R.append(tuple(f.__defaults__ or ()))\n" +
           ("    R.append(sorted((f.__kwdefaults__ or {}).items()))\n    R.append(sorted(f.__annotations__.items()))\n" if v >= (3, 0) else "") +
           ("    R.append(f.__qualname__)\n" if v >= (3, 3) else "") +
           "    R.append((f.__code__.co_name, f.__code__.co_argcount, len(f.__closure__ or ())))\n"
           "    R.append(callable(f))\n"
           "    for A in ((), (1,), (1, 2, 3)):\n"
           "        for K in ({}, {'k': 5}):\n"
           "            try:\n"
           "                R.append(f(*A, **K))\n"
           "            except TypeError:\n"
           "                R.append('te')\n")
    src = src.replace("__defaults__", "func_defaults" if v < (2, 6) else "__defaults__") if False else src
    mixed = v < (3, 4) and any(d and k == "kwonly" for n, k, d, a in params)

    def extra(e):
        def D(n):
            e.ctx.event("default", n)
            if not mixed:
                e.fault("D", n)
            return e.ctx.obj("d." + n)

        def A(n):
            e.ctx.event("ann", n)
            if not mixed:
                e.fault("A", n)
            return e.ctx.obj("a." + n)
        return {"D": D, "A": A}

    def fn(ctx):
        got, want = run_src(ctx, v, src, {"D": (E1,), "A": (E1,)}, ("R",), extra)
        if mixed:
            for x in (got, want):
                x.events = sorted(x.events, key=lambda t: (t[0] != "default", repr(t) if t[0] == "default" else ""))
        ctx.same(got, want, "function object")
    assert supported(v, src), (v, compiled(v, src), src)
    return H("%s/%s-%s" % (v, kind, hid), fn, str(v))


def table(v):
    out = []
    three = v >= (3, 0)
    for n in range(4):
        for d in range(n + 1):
            ps = [(x, "pos", i >= n - d, False) for i, x in enumerate("abc"[:n])]
            for closure in range(3):
                out.append(("p%dd%dc%d" % (n, d, closure), ps, False, closure))
            out.append(("p%dd%d-args-kws" % (n, d), ps + [("args", "var", 0, 0), ("kws", "kw", 0, 0)], False, 1))
            if three and n:
                for anns in range(1, 1 << n):
                    pa = [(x, k, dd, bool(anns >> i & 1)) for i, (x, k, dd, a) in enumerate(ps)]
                    out.append(("p%dd%da%d" % (n, d, anns), pa, False, anns % 3))
                    if anns == (1 << n) - 1:
                        out.append(("p%dd%da%d-ret" % (n, d, anns), pa, True, n % 2))
    if three:
        out.append(("ret", [], True, 0))
        out.append(("ret-closure", [], True, 2))
        for n, d in ((0, 0), (1, 0), (1, 1), (2, 1), (2, 2)):
            ps = [(x, "pos", i >= n - d, True) for i, x in enumerate("ab"[:n])]
            for kd in range(4):
                for ka in (0, 1, 3):
                    ko = [("k", "kwonly", bool(kd & 1), bool(ka & 1)), ("m", "kwonly", bool(kd & 2), bool(ka & 2))]
                    out.append(("p%dd%d-kd%dka%d" % (n, d, kd, ka), ps + ko, kd == 3, (n + kd) % 3))
            out.append(("p%dd%d-all" % (n, d), ps + [("args", "var", 0, True), ("k", "kwonly", True, True), ("kws", "kw", 0, True)],
                        True, 2))
    return out


SRC = {
    "evaluated-once": ('''
def mk(k):
    def f(a=ev("d", k), b=ev("e", k)): return (a, b)
    return f
R = []
for i in range(n(1, 0, 2)):
    try:
        f = mk(i)
        R += [f(), f(), f(1), f(b=2)]
    except E1:
        R.append("e")
''', {"ev": (E1,)}),
    "closures-share-and-differ": '''
def mk(k):
    x = [k]
    def get(): return x[0]
    def put(y): x[0] = y
    return get, put
a, b = mk(n(1)), mk(5)
a[1](7)
R = [a[0](), b[0]()]
if c(1): b[1](8)
R += [a[0](), b[0]()]
fs = []
for i in range(3): fs.append(lambda i=i: i)
R += [f() for f in fs]
''',
    "names-and-docs": '''
def f(): "doc of f"
def g(): return "not a doc"
def h(): pass
class C(object):
    "class doc"
    def m(self): "doc of m"; return 1
l = lambda: "no doc"
R = [f.__name__, f.__doc__, g.__name__, g.__doc__, h.__doc__, C.__dict__["m"].__name__, C.__dict__["m"].__doc__, C.__doc__,
     l.__name__, l.__doc__]
f.__name__ = "other"
f.__doc__ = "new"
R += [f.__name__, f.__doc__]
''',
    "attributes": ('''
def f(a=1): return a
def g(a=1): return a
f.x = n(1)
R = [f.x, hasattr(g, "x"), f()]
f.x = 9
R += [f.x, f.__dict__["x"]]
del f.x
R.append(hasattr(f, "x"))
R.append(f == g)
R.append(f == f)
R.append({f: 1}[f])
R.append(f.__globals__ is globals())
''', None, {"lo": (2, 6)}),
    "annotations-are-separate": ('''
def f(a: 1, b: "two" = 2) -> 3: return a
def g(a): return a
def h(): pass
R = [sorted(f.__annotations__.items()), g.__annotations__, h.__annotations__]
g.__annotations__["z"] = 5
R += [h.__annotations__, sorted(g.__annotations__.items()), f(1), sorted(f.__annotations__.items())]
f.__annotations__ = {}
R.append(f.__annotations__)
''', None, {"lo": (3, 1)}),
    "kwdefaults-changed": ('''
def f(a, *, k=1, m=2): return (a, k, m)
def g(*, k=1): return k
R = [f(0), g()]
f.__kwdefaults__["k"] = n(1)
R += [f(0), g(), f(0, m=5)]
f.__kwdefaults__ = {"m": 8}
try:
    R.append(f(0))
except TypeError:
    R.append("te")
R.append(f(0, k=3))
''', None, {"lo": (3, 1)}),
    "module": '''
def f(): pass
class C(object):
    def m(self): pass
R = [f.__module__, C.__module__, C.__dict__["m"].__module__, (lambda: 1).__module__]
''',
    "qualnames": ('''
def f():
    def g():
        return lambda: 1
    class D:
        def m(self):
            def z(): pass
            return z
    return g, D
g, D = f()
R = [f.__qualname__, g.__qualname__, g().__qualname__, D.__qualname__, D.m.__qualname__, D().m().__qualname__,
     [x.__qualname__ for x in (lambda: 1,)], D.m.__name__, g().__name__]
''', None, {"lo": (3, 3)}),
    "wrapped": ('''
from functools import wraps
def deco(f):
    @wraps(f)
    def w(*a, **k):
        "doc of w"
        return ("w", f(*a, **k))
    return w
@deco
def h(x, y=2):
    "doc of h"
    return (x, y)
R = [h.__name__, h.__doc__, h(n(1)), h(1, y=3)]
''', None, {"lo": (2, 6)}),
    "bound-methods": '''
class C(object):
    def m(self, x=1):
        "doc"
        return (self is o, x)
o = C()
b = o.m
R = [b(), b(2), b.__name__, C.m.__name__, b.__doc__]
''',
    "bound-method-attributes": ('''
class C(object):
    def m(self, x=1): return x
o = C()
b = o.m
R = [b.__self__ is o, b.__func__ is C.__dict__["m"], b == o.m, b.__func__(o, 5), hash(b) == hash(o.m)]
''', None, {"lo": (2, 6)}),
}


def harnesses():
    hs = []
    for v in ALL:
        for t in table(v):
            hid, ps, ret, closure = t
            if v < (2, 6):
                # these have func_defaults etc. only
                pass
            hs.append(definition(v, hid, ps, ret, closure, doc=len(ps) % 2 == 1))
            if len(ps) == 2 and closure:
                hs.append(definition(v, hid, ps, ret, closure, "method", doc=True))
            if not any(a for n, k, d, a in ps) and not ret:
                hs.append(definition(v, hid, ps, ret, closure, "lambda"))
    hs += any_checks(PROP, ALL)
    return hs + src_checks(ALL, SRC, prefix="src-")
