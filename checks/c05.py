"""C05 name resolution, binding and deletion; cells."""
import types

from symx.lib import *  # noqa
from symx.anyvalue import any_checks

PROP = "C05"
ASSUMPTIONS = ["source programs are compiled for each version by symx/pyc.py (3.12: the host's own compiler)",
               "the reference for source programs is the host Python; for single instructions a table of the scoping "
               "rules written here", "a class body or module namespace is an ordinary dictionary"]
BOUNDS = ("every name instruction with all combinations of presence of the name in the local, global and builtin "
          "namespaces, with builtins given as a dictionary or a module, values opaque; cells bound or unbound at each "
          "access; closures nested up to 3 deep, <= 4 variables; all conditions in the source programs symbolic")

OTHER = "other"


class Mod(types.ModuleType):
    """a module as builtins"""

    def __init__(self, d):
        types.ModuleType.__init__(self, "mod")
        self.__dict__.clear()
        self.__dict__.update(d)


def scope(ctx, which, name="x"):
    """a namespace that may contain `name`, and always contains another name"""
    d = {OTHER: ctx.obj(which + ".other")}
    if ctx.bool("in_" + which):
        d[name] = ctx.obj(which + ".x")
    return d


def instr(v, op, scopes, ref, store=False, push=None):
    """Run one name instruction and compare the value, exception and all namespaces."""
    def fn(ctx):
        L = scope(ctx, "local") if "l" in scopes else {OTHER: ctx.obj("local.other")}
        G = scope(ctx, "global") if "g" in scopes else {OTHER: ctx.obj("global.other")}
        B = scope(ctx, "builtin") if "b" in scopes else {}
        B.update(BUILTINS)
        kind = ctx.choose("builtins", ["dict", "module"]) if "b" in scopes else "dict"
        val = ctx.obj("val")

        def go(on):
            l, g, b = dict(L), dict(G), dict(B)
            l2 = {"_sentinel": SENT, "val": val}
            if on:
                g["__builtins__"] = b if kind == "dict" else Mod(b)
                a = V("x") if "FAST" in op else N("x")
                ins = []
                if op == "LOAD_FROM_DICT_OR_GLOBALS":
                    ins.append(("LOAD_LOCALS",))
                code = make(v, [("LOAD_NAME", N("_sentinel"))] + ([("LOAD_NAME", N("val"))] if store else []) + ins +
                            [(op, a)] + [("BUILD_TUPLE", 2 if op.startswith("LOAD") else 1), ("RETURN_VALUE",)],
                            flags=1 if "FAST" in op else 0)
                l.update(l2)
                try:
                    r = execute(v.vm(), code, g, l)
                finally:
                    g.pop("__builtins__", None)
                    for k in l2:
                        l.pop(k, None)
                    ctx.event("after", l, g, b)
                return r
            try:
                r = ref(l, g, b, val)
                return (SENT,) + ((r,) if op.startswith("LOAD") else ())
            finally:
                ctx.event("after", l, g, b)
        ctx.same(ctx.run(lambda: go(1)), ctx.run(lambda: go(0)), "binding")
    return H("%s/%s" % (v, op), fn, str(v))


def load_name(l, g, b, val):
    for d in (l, g, b):
        if "x" in d:
            return d["x"]
    raise NameError("x")


def load_global(l, g, b, val):
    return load_name({}, g, b, val)


def load_fast(l, g, b, val):
    if "x" in l:
        return l["x"]
    raise UnboundLocalError("x")


def store(which):
    def f(l, g, b, val):
        (l if which == "l" else g)["x"] = val
    return f


def delete(which, exc):
    def f(l, g, b, val):
        d = l if which == "l" else g
        if "x" not in d:
            raise exc("x")
        del d["x"]
    return f


INSTRS = {
    "LOAD_NAME": ("lgb", load_name, False),
    "LOAD_GLOBAL": ("lgb", load_global, False),
    "LOAD_FAST": ("lgb", load_fast, False),
    "LOAD_FAST_CHECK": ("lgb", load_fast, False),
    "LOAD_FROM_DICT_OR_GLOBALS": ("lgb", load_name, False),
    "STORE_NAME": ("lg", store("l"), True),
    "STORE_GLOBAL": ("lg", store("g"), True),
    "STORE_FAST": ("lg", store("l"), True),
    "DELETE_NAME": ("lg", delete("l", NameError), False),
    "DELETE_GLOBAL": ("lg", delete("g", NameError), False),
    "DELETE_FAST": ("lg", delete("l", UnboundLocalError), False),
}

SRC = {
    "local-global": '''
x = "G"
def f(a):
    if c(1): x = a
    else: ev("skip")
    return x
def g():
    global x
    r = x
    if c(2): x = "G2"
    if c(3): del x
    return r
R = []
try: R.append(f(1))
except UnboundLocalError: R.append("ule")
R.append(g())
try: R.append(x)
except NameError: R.append("ne")
''',
    "del-local": '''
def f():
    x = 1
    if c(1): del x
    if c(2): x = 2
    try:
        y = x
    except UnboundLocalError:
        return "ule"
    del x
    try:
        x
    except NameError:
        return ("gone", y)
R = f()
''',
    "del-twice": '''
def f():
    x = 1
    del x
    if c(1): x = 2
    try: del x
    except UnboundLocalError: return "ule"
    return "ok"
R = f()
''',
    "del-global": '''
def f():
    global y
    if c(1): y = 1
    del y
    return "deleted"
if c(2): y = 3
try: R = f()
except NameError: R = "ne"
R = (R, "y" in globals())
''',
    "builtin-shadow": '''
def f():
    return len([1, 2])
a = f()
if c(1): len = lambda x: "mine"
b = f()
if c(1): del len
d = f()
R = (a, b, d)
''',
    "closure-read": '''
def outer(a):
    x = a
    def inner(): return x
    r = [inner()]
    if c(1): x = a + 1
    r.append(inner())
    return r
R = outer(1)
''',
    "closure-unbound": '''
def outer():
    def inner(): return x
    r = []
    try: r.append(inner())
    except NameError: r.append("ne")
    if c(1): x = 5
    try: r.append(inner())
    except NameError: r.append("ne")
    try: r.append(x)
    except UnboundLocalError: r.append("ule")
    return r
R = outer()
''',
    "closure-loop": '''
def outer():
    fs = []
    for i in it("x", 2):
        def f(): return i
        fs.append(f)
        if c(1): break
    return [f() for f in fs]
R = outer()
''',
    "closure-each-call": '''
def make(n):
    k = [n]
    def inc(): k.append(len(k)); return k
    return inc
p = make("a"); q = make("b")
for s in (1, 2, 3):
    if c(0): p()
    else: q()
R = (p(), q())
''',
    "three-deep": '''
def a(x):
    y = x + 1
    def b(z):
        def d(): return (x, y, z)
        w = y
        def e(): return (w, d())
        return d, e
    r = b(5)
    if c(1): y = 10
    if c(2): x = 20
    return [f() for f in r]
R = a(1)
''',
    "param-cell": '''
def f(a, b=2, *args):
    def g(): return (a, b, args)
    r = g()
    if c(1): a = "A"
    if c(2): args = "ARGS"
    return (r, g())
R = (f(1), f(1, 5, 6))
''',
    "nonlocal": ('''
def outer():
    x = 0
    def inc():
        nonlocal x
        x += 1
        return x
    def get(): return x
    r = []
    if c(1): r.append(inc())
    r.append(get())
    if c(2): x = 10
    r.append(inc())
    return r, x
R = outer()
''', None, {"lo": (3, 1)}),
    "nonlocal-deep": ('''
def a():
    x = "a"
    def b():
        def d():
            nonlocal x
            x = "d"
        if c(1): d()
        return x
    def e():
        x = "e"
        def f():
            nonlocal x
            if c(2): x = "f"
        f()
        return x
    return b(), e(), x
R = a()
''', None, {"lo": (3, 1)}),
    "del-cell": ('''
def outer():
    x = 1
    def get(): return x
    def rm():
        nonlocal x
        del x
    r = []
    if c(1): rm()
    if c(2):
        try: del x
        except NameError: r.append("ne-del")
    try: r.append(get())
    except NameError: r.append("ne")
    try: r.append(x)
    except NameError: r.append("ule")
    try: rm()
    except NameError: r.append("ne-rm")
    x = 7
    r.append(get())
    return r
R = outer()
''', None, {"lo": (3, 2)}),
    "class-scope": '''
x = "G"
class A:
    if c(1): x = "A"
    y = x
    def m(self): return x
    if c(1): del x
    z = x
R = (A.y, A.z, A().m(), hasattr(A, "x"))
''',
    "class-in-function": '''
x = "G"
def f(c1, c2):
    x = "F"
    class A:
        if c1: x = "A"
        y = x if c1 else "none"
        def m(self): return x
    if c2: x = "F2"
    return (A.y, A().m())
R = f(c(1), c(2))
''',
    "class-deref": ('''
x = "G"
def f():
    x = "F"
    class A:
        y = x
        def m(self): return x
    return A.y, A().m()
R = f()
''',),
    "class-deref-own": ('''
def f(p):
    x = "F"
    class A:
        if p: x = "A"
        y = x
        def m(self): return x
    return A.y, A().m()
R = f(c(1))
''', None, {"lo": (3, 4)}),
    "genexp-scope": '''
x = "G"
def f(n):
    y = n
    g = (x2 + y for x2 in [1, 2] if y)
    if c(1): y = 10
    return list(g)
R = (f(1), [q for q in (z for z in it("x", 2))], x)
''',
    "comp-nested": '''
def f(k):
    r = [[(i, j, k) for j in range(i)] for i in it("x", 1) and [2, 1]]
    s = [(lambda: i)() for i in (1, 2)]
    return r, s
R = f("k")
''',
    "comp-no-leak": ('''
i = "keep"
def f():
    i = "mine"
    a = [i for i in it("x", 2)]
    return i, a
r = [i for i in (1, 2)]
class A:
    i = "class"
    a = [i for i in (3, 4)]
R = (i, f(), r, A.i, A.a)
''', None, {"lo": (3, 1)}),
    "comp-leak-restored": ('''
def f():
    if c(1): i = 1
    s = [i for i in it("x", 1)]
    try: return (i, s)
    except UnboundLocalError: return ("ule", s)
R = f()
''', None, {"lo": (3, 1)}),
    "set-dict-comp": ('''
def f(k):
    return {(x, k) for x in it("x", 2)}, {x: k for x in (1, 2) if c(1)}
R = f(9)
''', None, {"lo": (2, 7)}),
    "lambda-default": '''
fs = [lambda x=i: x for i in (1, 2, 3)]
gs = []
for i in (1, 2): gs.append(lambda: i)
R = ([f() for f in fs], [g() for g in gs])
''',
    "global-in-nested": '''
x = "G"
def f():
    x = "F"
    def g():
        global x
        if c(1): x = "G2"
        return x
    return g(), x
R = (f(), x)
''',
    "recursion-locals": '''
def f(n):
    x = n
    if n and c(1): f(n - 1)
    return x
def g(n):
    x = [n]
    def h(): x.append(n); return x
    if n: g(n - 1)
    return h()
R = (f(2), g(2))
''',
    "recursive-closure": '''
def outer(n):
    def fact(k): return 1 if k < 2 else k * fact(k - 1)
    return fact(n)
R = outer(4)
''',
    "aug-assign": '''
x = 1
def f():
    global x
    x += 5
    y = x
    y -= 1
    return y
try:
    if c(1): del x
    R = f()
except NameError:
    R = "ne"
''',
    "aug-unbound": '''
def f():
    if c(1): x = 1
    try: x += 1
    except UnboundLocalError: return "ule"
    return x
R = f()
''',
    "for-target-global": '''
def f():
    global t
    for t in it("x", 2): pass
t = None
f()
R = t
''',
    "except-name": ('''
def f():
    e = "before"
    try: ev(1)
    except E1 as e: r = type(e)
    try: return e
    except UnboundLocalError: return "ule"
R = f()
''', {"ev": (E1,)}, {"lo": (3, 1)}),
    "import-binds": '''
def f():
    import os.path
    import os.path as p
    from os import path as q, sep
    return os.path is p, p is q, sep
R = f()
''',
    "name-mangling": '''
class A:
    __x = 1
    def m(self):
        self.__y = 2
        return self.__x + self.__y
a = A()
a.m()
R = (A._A__x, a._A__y, a.m())
''',
    "module-class-global": '''
class A:
    global gg
    gg = 5
    y = gg
R = (gg, A.y, hasattr(A, "gg"))
''',
}


def cells_source(v):
    """cell instructions on their own: a closure over a cell that may be unbound"""
    hs = []

    def one(op, name, fnbody):
        def fn(ctx):
            from xpython.pyobj import Cell, Function
            bound = ctx.bool("bound")
            val, new = ctx.obj("val"), ctx.obj("new")
            pre = [("COPY_FREE_VARS", 1)] if v >= (3, 11) else []
            if op == "STORE_DEREF":
                body = pre + [("LOAD_GLOBAL", N("new")), (op, D("x")), ("LOAD_GLOBAL", N("done")), ("RETURN_VALUE",)]
            elif op == "DELETE_DEREF":
                body = pre + [(op, D("x")), ("LOAD_GLOBAL", N("done")), ("RETURN_VALUE",)]
            elif op == "LOAD_CLASSDEREF" or op == "LOAD_FROM_DICT_OR_DEREF":
                body = pre + ([("LOAD_LOCALS",)] if op.startswith("LOAD_FROM") else []) + [(op, D("x")), ("RETURN_VALUE",)]
            else:
                body = pre + [(op, D("x")), ("RETURN_VALUE",)]
            inl = op in ("LOAD_CLASSDEREF", "LOAD_FROM_DICT_OR_DEREF") and ctx.bool("in_locals")
            lv = ctx.obj("local")

            def go(on):
                cell = Cell(val) if bound else Cell()
                other = Cell(ctx.obj("other"))
                l = {"x": lv} if inl else {}
                try:
                    if on:
                        code = make(v, body, freevars=("other", "x"))
                        vm = v.vm()
                        g = {"__builtins__": dict(BUILTINS), "new": new, "done": "done"}
                        from xpython.vm import PyVMUncaughtException
                        try:
                            return vm.eval_frame(vm.make_frame(code, f_globals=g, f_locals=l, closure=(other, cell)))
                        except PyVMUncaughtException:
                            raise normalise(vm) from None
                    if op in ("LOAD_CLASSDEREF", "LOAD_FROM_DICT_OR_DEREF") and inl:
                        return lv
                    if op == "STORE_DEREF":
                        cell.set(new)
                        return "done"
                    if not bound:
                        raise NameError("x")
                    if op == "DELETE_DEREF":
                        cell.__init__()
                        return "done"
                    return val
                finally:
                    ctx.event("cells", other.get(), cell.is_empty(), None if cell.is_empty() else cell.get(), dict(l))
            ctx.same(ctx.run(lambda: go(1)), ctx.run(lambda: go(0)), "cell")
        return H("%s/%s" % (v, op), fn, str(v))
    for op in ("LOAD_DEREF", "STORE_DEREF", "DELETE_DEREF", "LOAD_CLASSDEREF", "LOAD_FROM_DICT_OR_DEREF"):
        if v.has(op):
            hs.append(one(op, op, None))
    return hs


def harnesses():
    hs = []
    for v in ALL:
        for op, (scopes, rf, st) in INSTRS.items():
            if v.has(op):
                hs.append(instr(v, op, scopes, rf, st))
        hs += cells_source(v)
    hs += src_checks(ALL, SRC)
    hs += any_checks(PROP, ALL)
    return hs
