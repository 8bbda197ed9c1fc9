"""C28 a call that the host interrupts, as for lack of stack space, fails in the caller and nothing else is damaged."""
import sys

from symx.lib import *  # noqa

PROP = "C28"
ASSUMPTIONS = ["the room left on the host's stack is the same from when the callee asks for it until the caller has the exception"]
BOUNDS = ("every version; programs of %d shapes; from 1 to 45 host calls of room on the stack, within which the callee fails or finishes")



def depth():
    f, n = sys._getframe(1), 0
    while f:
        f, n = f.f_back, n + 1
    return n


class Window:
    """From arm() to disarm(), the host lets calls go only `room` deeper than arm()."""

    def __init__(self, room):
        self.room, self.armed, self.limit = room, False, sys.getrecursionlimit()

    def arm(self):
        if self.room is not None:
            self.armed = True
            sys.setrecursionlimit(depth() + self.room)

    def disarm(self):
        sys.setrecursionlimit(self.limit)
        self.armed = False


TRY = """
try:
    R.append(%s)
except RecursionError:
    disarm()
    R.append('caught')
R.append(after(3))
"""
COMMON = """
R = []
def k(x, *a):
    return (x,) + a
def after(n):
    try:
        raise E1(n)
    except E1:
        return [k(i, 1) for i in (1, n)]
"""
# name: (definitions, expression, what the expression is, what else must hold)
SHAPES = {
    "function": ("def f(x):\n    arm()\n    y = k(x, 2)\n    y = k(y)\n    disarm()\n    return y\n", "f(1)", {}),
    "nested": ("def g(x):\n    arm()\n    y = k(x)\n    disarm()\n    return y\ndef h(x):\n    return g(x)\ndef f(x):\n    return h(x)\n", "f(1)", {}),
    "defaults": ("def f(x, y=5, *a):\n    arm()\n    def g(p=x, *z):\n        return (p, y, z)\n    r = g(1, 2)\n    disarm()\n    return (x, y, a, r)\n",
                 "f(1, 2, 3)", {}),
    "comprehension": ("def f(x):\n    arm()\n    y = [k(i) for i in (x, 2) if i]\n    z = list(i for i in y)\n    disarm()\n    return z\n", "f(1)", {}),
    "in-handler": ("def f(x):\n    try:\n        raise E1(x)\n    except E1:\n        arm()\n        y = k(x)\n        disarm()\n    return y\n", "f(1)", {}),
    "own-handler": ("def f(x):\n    arm()\n    try:\n        y = k(x)\n    except E1:\n        y = k(5)\n    disarm()\n    return y\n", "f(1)", {}),
    "raising": ("def f(x):\n    arm()\n    try:\n        raise E1(x)\n    except E1:\n        y = k(5)\n    disarm()\n    return y\n", "f(1)", {}),
    "class": ("def f(x):\n    arm()\n    class A(object):\n        y = k(x)\n        def m(self):\n            return k(self.y)\n    r = A().m()\n    disarm()\n    return r\n", "f(1)", {}),
    "init": ("class A(object):\n    def __init__(self, x):\n        arm()\n        self.x = k(x)\n        disarm()\ndef f(x):\n    return A(x).x\n", "f(1)", {}),
    "method": ("class A(object):\n    def m(self, x):\n        arm()\n        y = k(x)\n        disarm()\n        return y\n", "A().m(1)", {}),
    "generator": ("def g():\n    arm()\n    y = k(1)\n    disarm()\n    yield y\n    yield 2\nit1 = g()\ndef f():\n    return list(it1)\n", "f()", {"gen": "it1"}),
    "generator-resumed": ("def g():\n    yield 1\n    arm()\n    y = k(1)\n    disarm()\n    yield y\nit1 = g()\ndef f():\n    return [x for x in it1]\n", "f()", {"gen": "it1"}),
    "resuming": ("def g():\n    for i in (1, 2, 3):\n        yield i\nit1 = g()\ndef f():\n    x = next(it1)\n    arm()\n    y = next(it1)\n    disarm()\n    return (x, y)\n",
                 "f()", {"gen": "it1", "left": [2, 3]}),
    "starting": ("def g():\n    for i in (1, 2, 3):\n        yield i\nit1 = g()\ndef f():\n    arm()\n    y = next(it1)\n    disarm()\n    return y\n",
                 "f()", {"gen": "it1", "left": [1, 2, 3]}),
    "looping": ("def g():\n    for i in (1, 2, 3):\n        yield i\nit1 = g()\ndef f():\n    r = 0\n    arm()\n    for x in it1:\n        r = r + x\n    disarm()\n    return r\n",
                "f()", {"gen": "it1", "left": [1, 2, 3]}),
    "loop": ("def f(x):\n    arm()\n    r = 0\n    for i in (1, x):\n        while r < i:\n            r = r + 1\n    disarm()\n    return r\n", "f(2)", {}),
    "with": ("def f(x):\n    arm()\n    with cm0:\n        y = k(x)\n    disarm()\n    return y\n", "f(1)", {}),
    "finally": ("def f(x):\n    arm()\n    try:\n        y = k(x)\n    finally:\n        z = k(2)\n    disarm()\n    return (y, z)\n", "f(1)", {}),
    "finally-flag": ("F = 0\ndef f(x):\n    global F\n    try:\n        arm()\n        y = k(x)\n        disarm()\n    finally:\n        F = 1\n    return y\n", "f(1)", {}),
    "loop-flag": ("F = 0\ndef f(x):\n    global F\n    for i in (1, 2):\n        try:\n            arm()\n            y = k(x)\n            disarm()\n        finally:\n"
                  "            F = F or i\n    return y\n", "f(1)", {}),
    "nested-flag": ("F = 0\ndef g(x):\n    global F\n    try:\n        try:\n            arm()\n            y = k(x)\n            disarm()\n        finally:\n            F = 1\n"
                    "    finally:\n        F = F + 1\n    return y\ndef f(x):\n    global F\n    try:\n        return g(x)\n    finally:\n        F = F + 10\n", "f(1)", {}),
    "native": ("def f(x):\n    arm()\n    y = sorted([2, 1], key=lambda q: k(q, 1))\n    disarm()\n    return y\n", "f(1)", {}),
    "closure": ("def f(x):\n    arm()\n    def g():\n        return k(x, y)\n    y = 5\n    r = g()\n    disarm()\n    return r\n", "f(1)", {}),
    "import": ("def f(x):\n    arm()\n    import sys\n    from os import path\n    disarm()\n    return path.sep\n", "f(1)", {}),
    "keywords": ("def f(x):\n    arm()\n    def g(a, b=1, **kw):\n        return (a, b, sorted(kw.items()))\n    r = g(x, c=2, **{'d': 3})\n    disarm()\n    return r\n", "f(1)", {}),
}


class CM0:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


def source(name):
    return COMMON + SHAPES[name][0] + TRY % SHAPES[name][1]


def namespace(ctx, win):
    ns = Env(ctx).ns()
    ns.update(arm=win.arm, disarm=win.disarm, RecursionError=RecursionError, cm0=CM0())
    return ns


def run(ctx, v, code, room):
    """-> (namespace, vm, outcome)"""
    win = Window(room)
    ns = namespace(ctx, win)
    vm = v.vm() if v is not None else None

    def thunk():
        try:
            if v is None:
                exec(code, ns)
            else:
                execute(vm, code, ns, ns)
        finally:
            sys.setrecursionlimit(win.limit)
        return list(ns.get("R", ())), ns.get("F")
    return ns, vm, ctx.run(thunk)


def case(v, name):
    src = source(name)

    def fn(ctx):
        code = compiled(v, src)
        want = run(ctx, None, compiled(None, src), None)[2]
        room = ctx.choose("room", range(1, 46))
        ns, vm, got = run(ctx, v, code, room)
        r, f = want.value
        if got.kind == "ret" and got.value[0] != r:
            r = ["caught"] + r[1:]
        ctx.ok(got.kind == "ret" and got.value[0] == r, "only the call fails",
               lambda: "room %d: %s, expected %s or 'caught'" % (room, got, want))
        ctx.ok(got.kind == "ret" and got.value[1] == f, "clean-up code runs", lambda: "room %d: F: %s" % (room, got))
        ctx.ok(not vm.frames and vm.frame is None, "no frame is left", lambda: repr(vm.frames))
        ctx.ok(tuple(vm.exc_info) == (None, None, None), "no exception is being handled", lambda: "room %d: %r" % (room, vm.exc_info))
        if "gen" in SHAPES[name][2] and got.kind == "ret" and got.value[0][0] == "caught":
            out = ctx.run(lambda: list(ns[SHAPES[name][2]["gen"]]))
            # refused before the generator's turn, it has its values still; else it is finished
            ctx.ok(out.kind == "ret" and out.value in ([], SHAPES[name][2].get("left")), "the generator is not damaged", lambda: "room %d: then the generator gives %s" % (room, out))
    return H("%s/%s" % (v, name), fn, str(v), max_paths=3000)


def harnesses():
    return [case(v, name) for v in ALL for name in SHAPES if supported(v, source(name))]


BOUNDS = BOUNDS % len(SHAPES)
