"""C23 attribute access uses the written object and name and propagates its errors."""
from symx.lib import *  # noqa
from symx.anyvalue import any_checks

PROP = "C23"
ASSUMPTIONS = ["the reference is the host's attribute protocol on the same objects, or on the same classes compiled by the host"]
BOUNDS = ("24 attribute statements on an object whose every attribute operation may give a value, raise AttributeError or raise "
          "another exception; 12 programs over descriptor kinds (functions, methods, class and static methods, properties, "
          "data/non-data descriptors, slots, __getattr__, own entries), each kind symbolically present; per version")


class Any:
    """Every attribute operation is recorded and may fail."""

    def __init__(self, env, name):
        object.__setattr__(self, "_e", (env, name))

    def _name(self):
        return object.__getattribute__(self, "_e")[1]

    def __getattribute__(self, name):
        env, me = object.__getattribute__(self, "_e")
        if name.startswith("__"):
            return object.__getattribute__(self, name)
        self_step(env, "get", me, name)
        return Any(env, "%s.%s" % (me, name))

    def __setattr__(self, name, v):
        env, me = object.__getattribute__(self, "_e")
        self_step(env, "set", me, name, nm(v))

    def __delattr__(self, name):
        env, me = object.__getattribute__(self, "_e")
        self_step(env, "del", me, name)

    def __call__(self, *a, **k):
        env, me = object.__getattribute__(self, "_e")
        self_step(env, "call", me, tuple(map(nm, a)), tuple(sorted((x, nm(y)) for x, y in k.items())))
        return Any(env, me + "()")

    def __add__(self, o):
        env, me = object.__getattribute__(self, "_e")
        self_step(env, "add", me, nm(o))
        return Any(env, me + "+")

    def __eq__(self, o):
        return isinstance(o, Any) and Any._name(o) == Any._name(self)

    def __repr__(self):
        return "<%s>" % Any._name(self)

    __hash__ = object.__hash__


def nm(v):
    return Any._name(v) if isinstance(v, Any) else v


def self_step(env, *what):
    ctx = env.ctx
    ctx.event(*what)
    how = ctx.choose(ctx._occname("%s %s.%s" % (what[0], what[1], what[2] if isinstance(what[2], str) else "")),
                     ["value", "AttributeError", "raise"])
    if how == "AttributeError":
        raise AttributeError(what[1])
    if how == "raise":
        raise E1("%s" % (what[0],))


STMTS = {
    "get": "R = o.x",
    "get-get": "R = o.x.y",
    "set": "o.x = ev('v')",
    "set-attr": "o.x = o.y",
    "set-two": "o.x, p.y = 1, 2",
    "set-chain": "R = o.x = p.y = 5",
    "set-nested": "o.x.y = 3",
    "del": "del o.x",
    "del-two": "del o.x, p.y",
    "del-nested": "del o.x.y",
    "augmented": "o.x += ev(1)",
    "augmented-nested": "o.x.y += p.z",
    "call": "R = o.m()",
    "call-args": "R = o.m(ev(1), p.x)",
    "call-many": "R = o.m(1, 2, 3, 4, 5)",
    "call-kw": "R = o.m(ev(1), k=ev(2))",
    "call-star": "R = o.m(*(1, 2))",
    "call-star-kw": "R = o.m(1, *(2, 3), **{'k': 4})",
    "call-call": "R = o.m(1).n(2)",
    "call-nested": "R = o.m(p.n(1), 2)",
    "call-get": "R = o.x.m(1)",
    "call-value": "f = o.m\nR = f(1)",
    "for-target": "for o.x in (1, 2): pass",
    "with-target": "with cm('a') as o.x: pass",
    "getattr": "R = getattr(o, 'x', 'default')",
    "hasattr": "R = hasattr(o, 'x')",
    "setattr": "setattr(o, 'x', 1); delattr(p, 'y')",
    "conditional": "R = o.x and p.y or o.z",
    "compare": "R = o.x == p.x",
    "subscripted": "R = [o.x, {1: p.y}]",
}
WRAP = "def f(o, p):\n    R = None\n    %s\n    return R\ntry:\n    R = f(o, p)\nexcept AttributeError: R = 'AttributeError'\n"


def stmt(v, name, src):
    def extra(env):
        return {"o": Any(env, "o"), "p": Any(env, "p")}
    hs = []
    for pre, s in (("", "%s\n" % src), ("function-", WRAP % src.replace("\n", "\n    "))):
        if supported(v, s):
            hs.append(src_check(v, pre + name, s, extra=extra, label="attributes", max_paths=6000))
    return hs


DESCR = {
    "descriptor": ('''
class Desc(object):
    if c("get"):
        def __get__(self, o, k=None):
            ev("get", o is None, k.__name__)
            return "got"
    if c("set"):
        def __set__(self, o, v): ev("set", v)
    if c("delete"):
        def __delete__(self, o): ev("delete")
    def __repr__(self): return "<desc>"
class A(object):
    x = Desc()
o = A()
if c("own"): o.__dict__["x"] = "own"
R = []
try: R.append(repr(o.x))
except E1: R.append("E1")
try: R.append(repr(A.x))
except E1: R.append("E1")
try: o.x = 5
except AttributeError: R.append("no set")
except E1: R.append("E1")
R.append(o.__dict__.get("x"))
try: del o.x
except AttributeError: R.append("no delete")
except E1: R.append("E1")
R.append(o.__dict__.get("x"))
''', {"ev": (E1,)}),
    "methods": '''
class A(object):
    def m(self, *a, **k): return ("m", type(self).__name__, a, sorted(k.items()))
    def c1(cls, *a): return ("c", cls.__name__, a)
    c1 = classmethod(c1)
    def s1(*a): return ("s", a)
    s1 = staticmethod(s1)
    l = lambda self, q=1: (type(self).__name__, q)
    b = len
    t = str
class B(A): pass
if c("override"):
    def m(self, *a): return "override"
    B.m = m
o = B()
if c("own"): o.m = lambda *a: ("own", a)
R = [o.m(1), o.c1(1, 2), o.s1(3), o.l(), o.l(5), o.b("abc"), o.t(7), B.c1(4), A.c1(), B.s1(5, 6)]
f = o.m
g = o.c1
R += [f(9), g(8), A.m(o, 1)]
if not c("own"):
    R += [o.m(1, 2, 3), A.m(o, k=1)]
''',
    "property": ('''
class A(object):
    def __init__(self): self._x = 1
    def getx(self):
        ev("get")
        return self._x
    def setx(self, v):
        ev("set", v)
        self._x = v
    def delx(self):
        ev("del")
        del self._x
    if c(1): x = property(getx, setx, delx)
    elif c(2): x = property(getx)
    else: x = property(None, setx)
R = []
o = A()
try: R.append(o.x)
except (AttributeError, E1): R.append("no get")
try: o.x = 2
except (AttributeError, E1): R.append("no set")
try: o.x += 2
except (AttributeError, E1): R.append("no aug")
try: del o.x
except (AttributeError, E1): R.append("no del")
R.append(o.__dict__.get("_x"))
''', {"ev": (E1, E2)}),
    "property-decorator": ('''
class A(object):
    v = 1
    @property
    def x(self):
        ev("get")
        return self.v
    @x.setter
    def x(self, v):
        ev("set", v)
        self.v = v
o = A()
R = [o.x]
o.x = 5
R.append(o.x)
o.x += 1
R.append(o.v)
''', {"ev": (E1,)}, {"lo": (2, 6)}),
    "getattr": ('''
class A(object):
    x = "class"
    def __getattr__(self, n):
        ev("getattr", n)
        if c("missing"): raise AttributeError(n)
        return n + "!"
    if c("has setattr"):
        def __setattr__(self, n, v):
            ev("setattr", n, v)
            object.__setattr__(self, n, v)
    if c("has delattr"):
        def __delattr__(self, n):
            ev("delattr", n)
            object.__delattr__(self, n)
o = A()
R = [o.x]
try: R.append(o.y)
except AttributeError: R.append("missing")
o.y = 1
R.append(o.y)
del o.y
try: R.append(o.y)
except AttributeError: R.append("missing")
''', {"ev": (E1,)}),
    "getattribute": ('''
class A(object):
    x = "class"
    def __getattribute__(self, n):
        ev("getattribute", n)
        if c("super"): return object.__getattribute__(self, n)
        raise AttributeError(n)
    if c("has getattr"):
        def __getattr__(self, n): return "fallback " + n
    def m(self): return "m"
o = A()
try: R = o.x
except AttributeError: R = "no x"
try: S = o.m()
except AttributeError: S = "no m"
except TypeError: S = "not callable"
''', {"ev": (E1,)}, {"names": ("R", "S")}),
    "slots": '''
class A(object):
    __slots__ = ("x", "y")
    def m(self): return self.x
o = A()
R = []
if c(1): o.x = 1
try: R.append(o.x)
except AttributeError: R.append("unset")
try: R.append(o.m())
except AttributeError: R.append("unset")
try: o.z = 1
except AttributeError: R.append("no z")
try:
    del o.x
    R.append("deleted")
except AttributeError: R.append("unset")
''',
    "instance-callable": '''
class A(object): pass
class F(object):
    def __call__(self, *a): return ("F", a)
o = A()
A.f = F()
o.g = F()
def h(*a): return len(a)
A.h = h
o.i = h
R = [o.f(1), o.g(2), o.h(3), o.i(4), A.f(5)]
''',
    "not-callable": '''
class A(object):
    n = None
    z = 0
o = A()
R = []
for k in (0, 1):
    try:
        if k: o.n()
        else: o.z(1)
    except TypeError: R.append("TypeError")
try: o.missing()
except AttributeError: R.append("AttributeError")
try: o.missing(ev("argument"))
except AttributeError: R.append("AttributeError")
''',
    "builtins": '''
l = [3, 1]
l.append(2)
l.sort()
d = {"a": 1}
s = "a,b"
R = [l, d.get("a"), d.get("b", 0), s.split(","), s.upper().lower(), ",".join(["x", "y"]), l.index(2), l.pop(), (1).__add__(2), l.count]
R.pop()
try: l.nothing
except AttributeError: R.append("no attribute")
try: l.nothing = 1
except AttributeError: R.append("cannot set")
try: (5).real = 1
except AttributeError: R.append("cannot set")
''',
    "inherited-super": '''
class A(object):
    v = "A"
    def m(self, a=0): return ["A", a]
    def k(cls): return cls.__name__
    k = classmethod(k)
class B(A):
    v = "B"
    def m(self, a=0): return ["B"] + super(B, self).m(a)
    def w(self): return super(B, self).v
    def none(self): return super(B, self).nothing
    def kk(self): return super(B, self).k()
o = B()
R = [o.m(), o.m(5), o.w(), o.kk()]
try: o.none()
except AttributeError: R.append("nothing")
''',
    "super-zero": ('''
class A(object):
    v = "A"
    def m(self, a=0, **k): return ["A", a, k]
    @classmethod
    def k(cls): return cls.__name__
class B(A):
    v = "B"
    def m(self, a=0): return ["B"] + super().m(a) + super().m(a, z=1) + super().m(*(1,), **{"y": 2})
    def w(self): return super().v
    def none(self): return super().nothing
    @classmethod
    def k(cls): return super().k() + "B"
    def setv(self):
        super().v = 1
o = B()
R = [o.m(), o.m(5), o.w(), B.k()]
try: o.none()
except AttributeError: R.append("nothing")
try: o.setv()
except AttributeError: R.append("no setattr")
''', None, {"lo": (3, 0)}),
    "super-shadowed": ('''
def super(*a): return Any2(len(a))
class Any2(object):
    def __init__(self, n): self.n = n
    def m(self, *a): return (self.n, a)
class B(object):
    def m(self): return (super().m(1), super().n)
    def k(self): return (super(B, self).m(2), super(B, self).n, super(B).n)
R = [B().m(), B().k()]
''', None, {"lo": (3, 0)}),
    "class-attributes": '''
class A(object):
    x = 1
    def f(self): return self.x
class B(A): pass
R = [B.x, B().f()]
A.x = 2
R.append(B.x)
B.x = 3
R += [A.x, B.x, B().f()]
del B.x
R.append(B().f())
try: del B.x
except AttributeError: R.append("no x")
o = B()
o.x = 4
R += [o.x, B.x, o.f()]
del o.x
R.append(o.x)
''',
    "function-attributes": '''
def f(a, b=2):
    """doc"""
    return a
f.x = 1
R = [f.x, f.__name__, f.__doc__, f.__dict__["x"], f.__module__]
f.__name__ = "g"
R.append(f.__name__)
f.__doc__ = None
R.append(f.__doc__)
del f.x
try: f.x
except AttributeError: R.append("no x")
''',
    "bound-methods": '''
class A(object):
    def m(self): return 1
o = A()
b = o.m
R = [b.__self__ is o, b.__func__ is A.__dict__["m"], b.__name__, b == o.m, b.__doc__]
A.__dict__["m"].y = 5
R.append(b.y)
try: b.x = 1
except AttributeError: R.append("cannot set")
try: b.y = 1
except AttributeError: R.append("cannot set")
try: del b.y
except AttributeError: R.append("cannot delete")
try: b.nothing
except AttributeError: R.append("nothing")
R += [b.y, A.__dict__["m"].y, b.__module__, hasattr(b, "__code__"), b()]
''',
}


def harnesses():
    hs = []
    for v in ALL:
        for name, src in STMTS.items():
            hs += stmt(v, name, src)
    hs += src_checks(ALL, DESCR, label="attributes", prefix="classes-")
    hs += any_checks(PROP, ALL)
    return hs
