"""C14 creating an interpreter for one version never changes another version."""
import json
import os
import re

import symx.engine
from symx.lib import *  # noqa

# A path is a whole history, in processes of its own.
symx.engine.PATH_TIMEOUT = 150.0

PROP = "C14"
ASSUMPTIONS = ["each history runs in a process of its own, forked before any interpreter was created",
               "the reference is the same version's interpreter created first and alone (the same code)"]
BOUNDS = ("every history of one other interpreter (thorough: two), over all 23 version/implementation pairs plus 5 "
          "micro versions, created before or after the interpreter under test, having run a program (thorough: or not); compared on "
          "the implementation of all 256 instruction numbers and on 17 programs with symbolic conditions (quick: 5 of these for those created after)")

PROGS = {
    "ops": '''
x = n(1)
R = [x + 1, x * 3, x - 2, x == 1, x < 2, not x, -x, [1, 2, 3][x], (1, 2, 3)[x:], x in (0, 5), x is None]
x += 4
R.append(x)
R.append(7 // 2)
''',
    "loops": '''
R = []
for i in it("x", 2):
    if c(1): continue
    if c(2): break
    R.append(i)
else: R.append("else")
while c(3):
    R.append("w")
    break
''',
    "try": '''
def f():
    try:
        try: ev("b")
        except E1: return "h"
        else: ev("e")
    finally: ev("f")
R = [f()]
try:
    R.append({}["k"])
except (KeyError, IndexError): R.append("key")
''',
    "with": '''
def f():
    with cm("a") as x:
        ev("b", x)
        if c(1): return "r"
    return "end"
R = f()
''',
    "classes": '''
class A(object):
    """doc"""
    z = 1
    def m(self, a, b=2, *c, **d): return (self.z, a, b, c, sorted(d))
class B(A): z = 2
R = [A().m(1), B().m(1, 2, 3, k=4), B.__name__, A.__doc__]
''',
    "closures": '''
def f(a):
    def g(b):
        def h(): return (a, b)
        return h
    return g
R = [f(1)(2)(), (lambda q: q)(3)]
''',
    "comprehensions": '''
R = [[x for x in (1, 2) if c(1)], list(y for y in (3, 4)), [(i, j) for i in (1, 2) for j in (i, 3)]]
''',
    "sets-dicts": '''
d = {"a": 1, "b": 2}
a, b = (1, 2)
R = [sorted(d), a, b, d["a"], (a, [b]), slice(1, 2)]
del d["a"]
R.append(d)
''',
    "generators": '''
def g():
    for i in (1, 2):
        yield i
    if c(1): yield 3
R = list(g())
''',
    "calls": '''
def f(*a, **k): return (a, sorted(k.items()))
t = (1, 2); d = {"x": 3}
R = [f(1, y=2), f(*t), f(**d), f(0, *t, **d), len("abc"), int("7")]
''',
    "import": '''
import sys
import os.path as op
from os import path
R = [tuple(sys.version_info)[:3], sys.hexversion, path is op, sys.version]
''',
    "bool": '''
R = [T(1) and "a", T(2) or "b", "c" if T(3) else "d", 1 < n(4) < 3]
''',
    "strings": '''
R = ["%s-%d" % ("x", 3), "a" "b", "abc"[1:], "abc"[:1], "abc"[0:2]]
''',
    "globals": '''
x = 1
def f():
    global x, y
    x = 2
    y = 3
    return x
R = [f(), x, y, sorted(k for k in globals() if k in ("x", "y"))]
del x
''',
    "raise": '''
def f():
    try: raise E1("a")
    except E1: raise
try: f()
except E1: R = "reraised"
''',
    "delete": '''
class O(object): pass
o = O(); o.x = 1; del o.x
l = [1, 2, 3]; del l[0]; del l[1:]
R = [hasattr(o, "x"), l]
''',
    "assert": '''
try:
    assert T(1)
    R = "ok"
except AssertionError: R = "assert"
''',
}
BITS = {"ev": (E1,), "enter": (E1,)}


def clean(x):
    return re.sub(r"0x[0-9a-f]+|#\d+", "@", x)


def resolve(vm):
    """What each instruction number runs, as (class, code)."""
    out = {}
    b = vm.byteop
    names = [vm.opc.opname[i] for i in range(256)]
    for i, n in enumerate(names):
        f = getattr(b, n, None)
        co = getattr(getattr(f, "__func__", f), "__code__", None)
        out["%d %s" % (i, n)] = None if f is None else "%s %s" % (getattr(f, "__qualname__", "?"),
                                                                  co and hash_code(co))
    for a in ("version_info", "hexversion", "version", "is_pypy", "method_func_access"):
        out["." + a] = repr(getattr(b, a, None))
    out[".stack_fmt"] = sorted("%s %s" % (k, getattr(f, "__qualname__", f)) for k, f in b.stack_fmt.items())
    out[".version"] = repr(vm.version)
    return out


def hash_code(co):
    import hashlib
    return hashlib.sha1(co.co_code + repr(co.co_names).encode()).hexdigest()[:10]


def observe(v, vm, name, src):
    """The outcome of every path of one program on `vm`."""
    rec = []

    def fn(ctx):
        def thunk():
            env = Env(ctx, BITS)
            ns = env.ns()
            execute(vm, compiled(v, src), ns, ns)
            return ns.get("R")
        o = ctx.run(thunk)
        key = sorted((k, str(x)) for k, x in ctx.draws.items()) if False else None
        e = o.value if o.kind != "exc" else (type(o.value).__name__, str(o.value))
        rec.append(clean(repr((o.kind, e, o.events, key))))
        ctx.ok(True, "ran")
    res = engine.explore(name, fn, 400, 300, validate=False)
    if res.truncated:
        raise Truncated(name)
    return sorted(rec)


class Truncated(Exception):
    """The machine was too slow to explore a program: no verdict."""


FEW = ("ops", "try", "calls", "import", "with")


def table(v, vm, few=False):
    out = resolve(vm)
    for name, src in PROGS.items():
        if supported(v, src) and (name in FEW or not few):
            out["program " + name] = observe(v, vm, name, src)
    return out


def forked(work):
    """Run `work` in a fresh process; its JSON result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            import signal
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.close(r)
            try:
                d = work()
            except BaseException as e:  # noqa
                d = {"crash": clean("%s: %s" % (type(e).__name__, e))}
            with os.fdopen(w, "w") as f:
                json.dump(d, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        s = f.read()
    os.waitpid(pid, 0)
    return json.loads(s) if s else {"crash": "no output"}


def retried(work):
    for _ in range(3):
        d = forked(work)
        if "Truncated" not in d.get("crash", ""):
            break
    return d


EVERY = ALL + MICRO
_BASE = {}


def base(v):
    if v.name not in _BASE:
        _BASE[v.name] = retried(lambda: table(v, v.vm()))
    return _BASE[v.name]


def use(w):
    """create an interpreter for w, perhaps run something on it"""
    vm = w.vm()
    return vm


def exercise(w, vm):
    src = "R = [x for x in (1, 2)]\nimport sys\ndef f(a): return a\nR.append(f(3))\n"
    if supported(w, src):
        execute(vm, compiled(w, src), {"__builtins__": builtins_ns(), "__name__": "w"}, None)


def history(v, others, tier="quick"):
    def fn(ctx):
        ws = [ctx.choose("other%d" % k, EVERY) for k in range(others)]
        order = ctx.choose("order", ["before", "after"]) if others == 1 else "before"
        run = tier == "quick" or ctx.bool("runs")

        def work():
            vm = v.vm() if order == "after" else None
            for w in ws:
                m = w.vm()
                if run:
                    exercise(w, m)
            return table(v, vm or v.vm(), order == "after" and tier == "quick")
        got, want = retried(work), base(v)
        if order == "after" and tier == "quick" and "crash" not in got:
            want = {k: want.get(k) for k in want if k in got or k[:8] != "program "}
        diff = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
        ctx.ok(not diff, "same as alone", "%s after %s differs in %s: %s instead of %s" % (
            v, ws, diff[:6], str(got.get(diff[0]))[:300] if diff else "", str(want.get(diff[0]))[:300] if diff else ""))
    return H("%s/history-%d" % (v, others), fn, v.name, tier=tier, max_paths=5000, max_seconds=800)


def harnesses():
    return [history(v, 1) for v in EVERY] + [history(v, 2, "thorough") for v in ALL]
