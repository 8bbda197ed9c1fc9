"""Programs that carry any value - None, False, or one whose every use would be seen
(pv(k) of symx/lib.py) - through the constructs a check is about."""

ANY = {
    "C05": {
        "names": '''
g = pv(1)
def main():
    a = pv(2)
    b = a
    def inner(): return (a, b, g)
    r = [inner()]
    b = pv(3)
    r.append(inner())
    global h
    h = pv(4)
    r += [h, a, b]
    return r
R = [main(), g, h]
''',
        "deleted": '''
def main():
    a = pv(1)
    r = [a]
    del a
    try: a
    except NameError: r.append("gone")
    a = pv(2)
    return r + [a]
x = pv(3)
R = [main(), x]
del x
try: x
except NameError: R.append("gone")
''',
        "nonlocal": ('''
def main():
    a = pv(1)
    def put():
        nonlocal a
        a = pv(2)
        return a
    class C:
        b = a
        c = pv(3)
        d = c
    return [a, put(), a, C.b, C.c, C.d]
R = main()
''', None, {"lo": (3, 0)}),
        "comprehension": '''
def main():
    a = pv(1)
    return [(a, x) for x in (pv(2), 5)] + [[a for y in (1,)]]
R = main()
''',
        "parameter-cell": '''
def f(a, b=pv(1)):
    def g(): return (a, b)
    return g
R = [f(pv(2))(), f(1, pv(3))()]
''',
        "builtin-shadowed": '''
len = pv(1)
def f(): return len
R = [len, f()]
del len
R.append(f() is len)
''',
    },
    "C06": {
        "built": '''
a = pv(1); b = pv(2)
R = [(a, b), [b, a], {1: a, 2: b}, [a], (b,), {"k": [a]}]
''',
        "unpacked": '''
(a, b) = (pv(1), pv(2))
[c, (d, e)] = [b, [a, pv(3)]]
R = [a, b, c, d, e]
a, b = b, a
R += [a, b]
''',
        "starred": ('''
a, *b = pv(1), pv(2), 3
*c, d = [pv(3)]
R = [a, b, c, d, [*b, a], (a, *b)]
''', None, {"lo": (3, 5)}),
        "items": '''
d = {}
d["x"] = pv(1)
l = [0, 1]
l[0] = pv(2)
l[1:] = [pv(3), d["x"]]
R = [d, l, l[0], d["x"], l[1:], l[:]]
''',
        "display-merge": ('''
d = {"a": pv(1)}
R = [{**d, "b": pv(2)}, {"a": pv(3), **d}]
''', None, {"lo": (3, 5)}),
        "comprehension": '''
R = [[x for x in (pv(1), 2)], list((x, 1) for x in [pv(2)])]
''',
        "dict-comprehension": ('''
R = {k: v for k, v in [(1, pv(1)), (2, pv(2))]}
''', None, {"lo": (2, 7)}),
        "mapping-update": '''
d = {1: 2}
d.update({3: pv(1)})
d.setdefault(4, pv(2))
R = [d, d.get(3), d.pop(4)]
''',
    },
    "C07": {
        "arguments": '''
def f(*a, **k): return (a, k)
a = pv(1); b = pv(2)
R = [f(a), f(a, b), f(x=a), f(a, x=b), f(*[a, b]), f(**{"x": a}), f(a, *(b,), **{"y": b})]
''',
        "native": '''
a = pv(1)
l = []
l.append(a)
l.insert(0, a)
R = [l, dict(x=a), tuple([a]), list((a, 1)), [a].pop(), zip([a], [a]) and 1]
''',
        "methods": '''
class A(object):
    def __init__(self, x, y=None): self.x = x; self.y = y
    def m(self, x): return (x, self.x, self.y)
    def __call__(self, x=5): return x
a = A(pv(1), y=pv(2))
R = [a.m(pv(3)), a(pv(4)), a(), A.m(a, pv(4))]
''',
        "results": '''
def f(x): return x
def g(x): pass
R = [f(pv(1)), f(f(pv(2))), g(f(pv(3))), (lambda: pv(4))()]
f(pv(5)); g(pv(6))
''',
        "callback": '''
def f(x): return x
R = [list(map(f, [pv(1), pv(2)])), [f][0](pv(3))]
''',
    },
    "C08": {
        "defaults": '''
def f(a, b=pv(1), *c): return (a, b, c)
x = pv(2)
y = pv(3)
R = [f(x), f(x, y), f(b=y, a=1), f(1, 2, x), f(*[y])]
''',
        "keyword-only": ('''
def f(a=pv(1), *, k=pv(2), **d): return (a, k, d)
x = pv(3)
y = pv(4)
R = [f(), f(k=x), f(x, k=y, z=x), f(**{"k": y})]
def g(*, k): return k
R.append(g(k=x))
''', None, {"lo": (3, 0)}),
        "keyword-only-required": ('''
def g(a, *, k, j=pv(1)): return (a, k, j)
R = []
x = pv(2)
y = pv(3)
for kw in ({"k": x}, {"k": y, "j": x}, {"j": x}, {}):
    try: R.append(g(y, **kw))
    except TypeError: R.append("TypeError")
''', None, {"lo": (3, 0)}),
        "extra": '''
def f(a, **d): return (a, d)
x = pv(1)
y = pv(2)
R = [f(x, x=y), f(a=x, y=y), f(**{"a": x, "b": 1})]
''',
        "lambda": '''
R = [(lambda x=pv(1): x)(), (lambda x=1, *a: (x, a))(pv(2), pv(3)), (lambda **k: k)(x=pv(4))]
''',
        "closure": '''
def f(a, b=pv(1)):
    def g(c=a, d=b): return (a, b, c, d)
    return g
R = [f(pv(2))(), f(1, pv(3))(d=4)]
''',
    },
    "C09": {
        "attributes": '''
def f(a=pv(1)): return a
f.x = pv(2)
R = [f.x, f(), f.__defaults__ if hasattr(f, "__defaults__") else (f(),)]
''',
        "decorated": '''
def d(x): return lambda f: (f(), x)
@d(pv(1))
def f(): return pv(2)
R = f
''',
        "keyword-defaults": ('''
def f(*, a=pv(1), b: pv(2) = 3) -> pv(3): return a
R = [f(), f.__kwdefaults__["a"], f.__annotations__]
''', None, {"lo": (3, 3)}),
        "closure-value": '''
def f():
    x = pv(1)
    def g(): return x
    return g
R = [f()()]
''',
    },
    "C10": {
        "return-through-finally": '''
def f():
    try:
        return pv(1)
    finally:
        ev("f")
def g():
    try:
        return 1
    finally:
        return pv(2)
def h():
    for i in (1, 2):
        try:
            x = pv(3)
            continue
        finally:
            ev("h", i)
    return x
R = [f(), g()]
''',
        "held-across": '''
def f():
    r = []
    for i in (1, 2):
        try:
            r.append((pv(1), ev(i)))
        except E1:
            r.append(pv(2))
        else:
            r.append(pv(3))
    return r
R = f()
''',
        "exception-value": '''
def f():
    try:
        raise E1(pv(1))
    except E1:
        x = pv(2)
        return x
R = f()
''',
    },
    "C11": {
        "arguments": '''
def f(a):
    try:
        raise E1(a, pv(2))
    except E1:
        import sys
        return sys.exc_info()[1].args
R = f(pv(1))
''',
        "not-an-exception": '''
def f():
    try:
        raise pv(1)
    except TypeError:
        return "TypeError"
R = f()
''',
        "assertion": ('''
def f():
    try:
        assert pv(1), pv(2)
    except AssertionError:
        import sys
        return sys.exc_info()[1].args
R = f()
''', None, {"lo": (2, 7)}),
    },
    "C12": {
        "values": ('''
class M(object):
    def __enter__(self): return pv(1)
    def __exit__(self, t, e, tb): return pv(2)
def f():
    with M() as x:
        return (x, pv(3))
def g():
    with M(): return pv(4)
R = f() if c(0) else g()
''', None, {"lo": (2, 5)}),
        "left-by": ('''
class M(object):
    def __enter__(self): return pv(1)
    def __exit__(self, t, e, tb): return y
y = pv(2)
def h():
    for i in (1, 2):
        with M() as x:
            if c(i): continue
            if c(9): break
    return x
R = h()
''', None, {"lo": (2, 5)}),
        "exit-result": ('''
class M(object):
    def __enter__(self): return 1
    def __exit__(self, t, e, tb): return pv(2)
def f():
    with M() as x:
        if c(1): raise E1("x")
        ev("b")
    return "after"
try:
    R = f()
except E1:
    R = "out"
''', None, {"lo": (2, 5)}),
    },
    "C13": {
        "yielded": '''
def g():
    yield pv(1)
    yield pv(2)
def main():
    r = []
    for x in g(): r.append(x)
    y = g()
    return r + [next(y), list(y), next(y, "end")]
R = main()
''',
        "sent": ('''
def g():
    x = yield pv(1)
    y = yield x
    yield (x, y)
def main():
    y = g()
    return [next(y), y.send(pv(2)), y.send(pv(3))]
R = main()
''', None, {"lo": (2, 5)}),
        "returned": ('''
def g():
    if c(1): yield pv(1)
    return pv(2)
def h():
    r = yield from g()
    yield (r, 1)
def main():
    r = [list(h())]
    x = g()
    for i in (1, 2):
        try: r.append(next(x))
        except StopIteration as e:
            r.append(("stop", e.value, e.args))
    return r
R = main()
''', None, {"lo": (3, 3)}),
        "delegated-send": ('''
def g():
    x = yield pv(1)
    return x
def h():
    yield (yield from g())
def main():
    y = h()
    return [next(y), y.send(pv(2))]
R = main()
''', None, {"lo": (3, 3)}),
        "first-send": ('''
def g():
    yield 1
y = g()
try: R = y.send(pv(1))
except TypeError: R = "TypeError"
''', None, {"lo": (2, 5)}),
        "genexp": '''
def main():
    a = pv(1)
    return list((a, x) for x in [pv(2), 1])
R = main()
''',
    },
    "C20": {
        "body": '''
class A(object):
    x = pv(1)
    y = x
    def m(self): return self.x
R = [A.x, A.y, A().m(), A.__dict__["x"]]
''',
        "keywords": ('''
class M(type):
    def __prepare__(name, bases, **kw):
        R.append(kw)
        return {"p": pv(1)}
    def __new__(m, name, bases, ns, **kw):
        R.append(kw)
        return type.__new__(m, name, bases, dict(ns))
    def __init__(c, name, bases, ns, **kw):
        R.append(kw)
R = []
class A(metaclass=M, k=pv(2), j=pv(3)):
    q = p
R += [A.p, A.q]
''', None, {"lo": (3, 0)}),
        "decorated": ('''
def d(c): return pv(1)
@d
class A(object):
    pass
R = A
''', None, {"lo": (2, 6)}),
        "made-by-call": ('''
class A(metaclass=lambda name, bases, ns, **k: (name, k, pv(1))):
    pass
R = A
''', None, {"lo": (3, 0)}),
        "subclass-hook": ('''
R = []
class A(object):
    def __init_subclass__(cls, k=1, **d): R.append((cls.__name__, k, d))
class B(A, k=pv(1), z=pv(2)): pass
''', None, {"lo": (3, 6)}),
    },
    "C21": {
        "module-values": '''
import sys, types
m = types.ModuleType("symx_any")
m.x = pv(1)
m.y = pv(2)
sys.modules["symx_any"] = m
try:
    from symx_any import x
    from symx_any import x as z, y
    import symx_any
    import symx_any as w
    R = [x, y, z, symx_any.x, w.y]
finally:
    del sys.modules["symx_any"]
''',
        "star": '''
import sys, types
m = types.ModuleType("symx_any")
m.x = pv(1)
m._y = pv(2)
if c(1): m.__all__ = ["x", "_y"]
sys.modules["symx_any"] = m
x = _y = "old"
try:
    from symx_any import *
    R = [x, _y]
finally:
    del sys.modules["symx_any"]
''',
    },
    "C23": {
        "attributes": '''
class A(object):
    c = pv(1)
    def __init__(self): self.x = pv(2)
a = A()
R = [a.c, a.x, A.c]
a.c = pv(3)
A.d = pv(4)
R += [a.c, A.c, a.d, getattr(a, "x"), getattr(a, "zz", pv(5))]
del a.c
R.append(a.c)
''',
        "getattr-hook": '''
class A(object):
    def __getattr__(self, n): return pv(1)
    def __setattr__(self, n, v): object.__setattr__(self, n, (v, pv(2)))
a = A()
a.x = pv(3)
R = [a.x, a.y]
''',
        "property": '''
class A(object):
    def get(self): return pv(1)
    def put(self, v): R.append(v)
    p = property(get, put)
R = []
a = A()
a.p = pv(2)
R.append(a.p)
''',
        "items": '''
class A(object):
    def __getitem__(self, k): return (k, pv(1))
    def __setitem__(self, k, v): R.append((k, v))
    def __delitem__(self, k): R.append(("del", k))
R = []
a = A()
a[pv(2)] = pv(3)
R.append(a[pv(4)])
del a[pv(5)]
''',
    },
    "C22": {
        "fields": ('''
x = pv(1)
R = [f"{x}", f"a{x!s}b", f"{x!r}", f"{x}{x}"]
''', None, {"lo": (3, 6)}),
    },
    "C03": {
        "carried": '''
a = pv(1)
class O(object):
    def __add__(self, o): return o
    def __radd__(self, o): return (o, "r")
    def __eq__(self, o): return o
    def __lt__(self, o): return o
    def __neg__(self): return pv(9)
    def __contains__(self, o): return pv(8)
    def __iadd__(self, o): return o
o = O()
R = [o + a, o == a, o < a, -o, a is None, a is not a, not a, 1 in o, 1 not in o]
o += a
R.append(o)
''',
    },
    "C24": {
    },
}


def any_checks(prop, vers):
    from symx.lib import src_checks
    return src_checks(vers, ANY[prop], prefix="any-")
