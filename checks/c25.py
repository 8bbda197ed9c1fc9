"""C25 logging and formatting instructions never disturb the program."""
import logging
import types

from symx.lib import *  # noqa
from checks.c16 import SHAPES, source

PROP = "C25"
ASSUMPTIONS = ["the same interpreter with logging off is the reference for what the program does",
               "the host's stack is large enough: near its end, writing a log needs stack, too"]
BOUNDS = ""


class Touchy:
    """A value that tells of every use the program did not make of it."""

    def __init__(self, env, k):
        object.__setattr__(self, "_", (env, k))

    def __getattribute__(self, name):
        env, k = object.__getattribute__(self, "_")
        env.ctx.event("touched", k, name)
        if name == "__class__":
            return Touchy
        if name[:1] == "m":
            return lambda *a, **kw: env.ev("m", len(a), len(kw))
        raise AttributeError(name)

    def __setattr__(self, name, value):
        env, k = object.__getattribute__(self, "_")
        env.ctx.event("set", k, name)

    def __call__(self, *a, **kw):
        env, k = object.__getattribute__(self, "_")
        return env.ev("called", len(a), len(kw))


def _touch(name):
    def method(self, *a):
        env, k = object.__getattribute__(self, "_")
        env.ctx.event(name, k)
        if name in ("__repr__", "__str__", "__format__"):
            raise E1(name)
        if name == "__hash__":
            return 5
        if name in ("__eq__", "__ne__", "__lt__", "__contains__"):
            return a and a[0] is self
        return env.ev(name)
    return method


for _n in ("__repr__ __str__ __format__ __hash__ __eq__ __ne__ __lt__ __contains__ __add__ __radd__ __iadd__ __sub__ __neg__ __getitem__ "
           "__setitem__ __delitem__").split():
    setattr(Touchy, _n, _touch(_n))


class Bad(Exception):
    def __repr__(self):
        raise E2("repr")

    __str__ = __repr__


PROGS = {
    "operators": "a = t(1)\nb = t(2)\nR = [a + b, a - b, a[b], -a, a < b, a is b, b in a, not c(1)]\na += b\nR.append(a)\n",
    "items": "a = t(1)\nb = t(2)\na[b] = t(3)\ndel a[b]\nR = [ev(1)]\n",
    "attributes": "a = t(1)\na.x = t(2)\nR = a.m\ntry:\n    a.y\nexcept AttributeError:\n    R = ev(3)\n",
    "calls": "a = t(1)\nb = t(2)\nR = [a(), a(b), a(b, b), a(b, k=b), a(k=b, l=a), a(*(b,)), a(**{'k': b}), a(b, *(a,), **{'z': a})]\n",
    "methods": "a = t(1)\nb = t(2)\nR = [a.m(), a.m(b), a.m(b, a), a.m(b, k=b), a.mm(*(b,))]\n",
    "functions": "def f(x=t(1), *y, **z):\n    return [x, y, z]\nf(t(2), t(3), k=t(4))\nR = ev(1)\n",
    "keyword-only": "def f(*, x=t(1)):\n    return x\nf(x=t(2))\nR = ev(1)\n",
    "closures": "def f(x):\n    y = t(1)\n    def g(z):\n        return [x, y, z]\n    return g\nf(t(2))(t(3))\ndef h(p):\n    def k():\n        nonlocal p\n        p = t(4)\n        return p\n    return k\nh(t(5))()\nR = ev(1)\n",
    "closures2": "def f(x):\n    y = t(1)\n    def g(z):\n        return [x, y, z]\n    x = t(7)\n    return g\nf(t(2))(t(3))\nR = ev(1)\n",
    "displays": "a = t(1)\nR = [[a, a], (a, a), {'k': a}, {a: 1}]\nb, d = (a, a)\n(b, (d, e)) = (a, (a, a))\nR = ev(1)\n",
    "sets": "a = t(1)\nR = {a, 1}\nR = {x for x in (1, 2)}\nR = {x: a for x in (1, 2)}\nR = [x for x in (a, a)]\nR = ev(1)\n",
    "stars": "a = t(1)\nR = [*(a, a)]\nR = (*[a], a)\nR = {**{'k': a}, 'l': a}\nb, *d = (a, a, a)\nR = ev(1)\n",
    "raise": "def f():\n    raise bad(t(1))\ntry:\n    f()\nexcept Exception as e:\n    R = ev(1)\ntry:\n    try:\n        f()\n    finally:\n        R = ev(2)\nexcept Exception:\n    R = ev(3)\n",
    "raise-out": "R = t(1)\nraise bad(R)\n",
    "raise-metaclass": "try:\n    raise odd('x')\nexcept Exception:\n    R = ev(1)\n",
    "with": "with cm(1) as x:\n    y = t(1)\n    if c(1):\n        raise bad(y)\nR = ev(1)\n",
    "generator": "def g(x):\n    y = yield x\n    yield t(2)\nfor i in g(t(1)):\n    ev(1)\nx = [1 for i in g(t(3))]\nR = ev(2)\n",
    "class": "class A(object):\n    x = t(1)\n    def __repr__(self):\n        ev('repr')\n        raise E1('r')\n    def __getattr__(self, n):\n        ev('getattr', n)\n        raise AttributeError(n)\n    def m(self, *a):\n        return a\na = A()\na.m(a, t(2))\nl = [a, (a, {1: a})]\nl.append(l)\nR = len(l)\n",
    "class-call": "class A(object):\n    def __call__(self, *a, **k):\n        return ev(len(a), len(k))\n    def __getattr__(self, n):\n        ev('getattr', n)\n        return n\n    def __repr__(self):\n        return ev('repr')\na = A()\nR = [a(), a(1), a(a, a), a(x=a), a(a, x=a)]\n",
    "metaclass-repr": "class M(type):\n    def __repr__(cls):\n        ev('repr')\n        raise E1('r')\n    def __getattribute__(cls, n):\n        ev('ga', n)\n        return type.__getattribute__(cls, n)\nA = M('A', (object,), {'__module__': 'x'})\nR = [A, (A, A)]\nx = A()\nR = len(R)\n",
    "subclasses": "class S(str):\n    def __repr__(self):\n        return ev('repr')\n    def __str__(self):\n        return ev('str')\n    def __format__(self, f):\n        return ev('format')\nclass L(list):\n    def __repr__(self):\n        return ev('repr')\n    def __iter__(self):\n        ev('iter')\n        return list.__iter__(self)\n"
                  "class D(dict):\n    def items(self):\n        return ev('items')\n    def __repr__(self):\n        return ev('repr')\nclass I(int):\n    def __repr__(self):\n        return ev('repr')\n    __str__ = __repr__\ns = S('x')\nl = L([1, s])\nd = D({1: l})\ni = I(4)\nx = (s, l, d, i)\ndef f(a, b, k=s):\n    return [a, b, k]\nf.__name__ = 'g'\nf(s, l)\nf(d, i, k=x)\nR = i + 1\n",
    "names": "def f():\n    return 1\ntry:\n    f.__name__ = t(1)\nexcept TypeError:\n    pass\nR = f()\n",
    "big": "a = 1 << 20000\nb = a + 1\nd = [a, b]\nR = d[1] - d[0]\nx = -a\ny = {a: b}\n",
    "deep": "a = []\nfor i in range(1200):\n    a = [a]\nb = a\nR = len(b)\n",
    "cycle": "a = []\na.append(a)\nd = {1: a}\nd[2] = d\na.append(d)\nb = (a, d)\nR = len(b)\n",
    "odd-text": "a = '\\ud800'\nb = [a, '%s %d', b'\\xff']\nc2 = a + '%'\nR = len(b)\n",
    "import": "import math\nfrom math import floor, ceil as cc\nR = [floor(ev(1) + 0.5), cc(1)]\n",
    "unbound": "def f():\n    def g():\n        return x\n    try:\n        g()\n    except NameError:\n        R = ev(1)\n    x = 1\n    return g()\nR = f()\ndef h():\n    try:\n        return y\n    except NameError:\n        return ev(2)\n    y = 1\nR = [R, h()]\n",
    "fstring": "a = 5\nR = f'{a}{a!r:>4}x'\n",
    "print": "class W(object):\n    def write(self, x):\n        ev(x)\nR = ev(1)\nassert c(1), t(1)\n",
}


class OddType(type):
    def __eq__(cls, other):
        raise E3("compared")

    __ne__ = __eq__
    __hash__ = type.__hash__


class Odd(Exception, metaclass=OddType):
    pass


class Handler(logging.Handler):
    def __init__(self):
        super().__init__()
        self.bad = []

    def emit(self, record):
        try:
            record.getMessage()
        except Exception as e:
            self.bad.append("%s: %s" % (record.msg, type(e).__name__))


def logged(ctx, level, thunk):
    """`thunk`, with logging at `level`"""
    logger = logging.getLogger("xpython")
    h = Handler()
    old = logger.level, logger.propagate
    logger.addHandler(h)
    logger.setLevel(level)
    logger.propagate = False
    try:
        out = ctx.run(thunk)
    finally:
        logger.setLevel(old[0])
        logger.propagate = old[1]
        logger.removeHandler(h)
    ctx.ok(not h.bad, "log entries can be written", lambda: str(h.bad[:3]))
    return out


def check(v, name, src, faults):
    def fn(ctx):
        def thunk():
            env = Env(ctx, faults)
            ns = env.ns()
            ns.update(t=lambda k: Touchy(env, k), bad=Bad, odd=Odd)
            execute(v.vm(), compiled(v, src), ns, ns)
            return type(ns.get("R")).__name__, ns["R"] if type(ns.get("R")) is int else None
        level = ctx.choose("level", [logging.INFO, logging.DEBUG])
        ctx.same(logged(ctx, level, thunk), logged(ctx, logging.CRITICAL, thunk), "logging changes nothing")
    return H("%s/%s" % (v, name), fn, str(v), max_paths=4000)


def formatting(v, names, part, deep=False):
    """Every instruction can be formatted whatever the stack holds."""
    from xpython.vm import format_instruction

    def fn(ctx):
        name = ctx.choose("instruction", names)
        op = v.opc.opmap[name]
        depth = ctx.choose("depth", range(5))
        kind = ctx.choose("kind", ["touchy", "text", "code", "function", "tuple", "int", "class"] if deep else ["touchy", "code", "function", "tuple"])
        operands = [None] if op < v.opc.HAVE_ARGUMENT else [0, 1, 2, 3, 256, 257] if deep else [0, 2, 257]
        if op in v.opc.COMPARE_OPS:
            operands = [i << (4 if v >= (3, 12) else 0) for i in range(len(v.opc.cmp_op))]
        if name in ("RAISE_VARARGS", "BINARY_OP"):
            operands = range(3) if name[0] == "R" else range(26)
        arg = ctx.choose("operand", operands)
        debug = ctx.bool("debug")
        env = Env(ctx)

        def thunk():
            vm = v.vm()
            src = "def f(x):\n    def g():\n        return x\n    return g\n"
            code = compiled(v, src)
            inner = [c for c in code.co_consts if hasattr(c, "co_code")][0]
            frame = vm.make_frame(inner, {"x": Touchy(env, 0)}, {"__builtins__": {}}, {})
            vm.frame = frame
            mk = {"touchy": lambda i: Touchy(env, i), "text": lambda i: "n%d" % i, "code": lambda i: code, "function": lambda i: len, "tuple": lambda i: ("k", Touchy(env, i)),
                  "int": lambda i: 1 << 20000, "class": lambda i: Touchy}[kind]
            frame.stack = [mk(i) for i in range(depth)]
            before = list(frame.stack)
            arguments = None if arg is None else mk(9) if op in v.opc.CONST_OPS else "x" if op in v.opc.NAME_OPS else arg
            text = format_instruction(frame, v.opc, name, arg, arguments, 0, 1, bool(debug), vm=vm)
            if type(text) is not str:
                return "not text"
            if len(frame.stack) != len(before) or any(a is not b for a, b in zip(frame.stack, before)):
                return "changes the stack"
            return name in text
        out = ctx.run(thunk)
        ctx.same(out, ctx.run(lambda: True), "formatted")
    return H("%s/format-%s" % (v, part), fn, str(v), max_paths=60000, tier="thorough" if deep else "quick")


def harnesses():
    hs = []
    for v in ALL:
        for name, src in PROGS.items():
            if name == "generator" and v < (2, 5) or not supported(v, src):
                continue
            hs.append(check(v, name, src, {}))
        for name in SHAPES:
            src, faults, opts = source(name)
            if not supported(v, src) or (opts.get("lo") and v < opts["lo"]):
                continue
            hs.append(check(v, "shape-" + name, src, faults))
        names = sorted(n for n in v.opc.opmap if n in v.opc.opname)
        formatted = [n for n in names if n in v.vm().byteop.stack_fmt or n in getattr(v.opc, "opcode_arg_fmt", {}) or v.opc.opmap[n] in v.opc.COMPARE_OPS]
        plain = [n for n in names if n not in formatted]
        hs.append(formatting(v, formatted, "operands"))
        hs.append(formatting(v, plain, "others", True))
        hs.append(formatting(v, formatted, "operands-all", True))
    return hs


BOUNDS = ("every version; levels INFO and DEBUG; %d programs whose values report or fail on any use the program does not make of them and %d program shapes, with symbolic branches "
          "and exceptions; formatting of every instruction which shows operands (thorough: every instruction) with a stack of up to 4 values of 4 (7) kinds and 3 (6) operands" % (len(PROGS), len(SHAPES)))
