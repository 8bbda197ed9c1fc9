"""C16 tracing and breakpoints do not change what the program computes."""
import sys

from symx.engine import guarded
from symx.lib import *  # noqa

PROP = "C16"
ASSUMPTIONS = ["an untraced run by the same interpreter is the reference for what the program computes",
               "sys.monitoring of the host is the reference for the order of calls and returns"]
BOUNDS = ("every version; %d program shapes with symbolic branches and exceptions; 14 sets of event kinds (thorough: all 128); callbacks that go on, stop tracing or "
          "finish a frame at any one of the first 8 events (12); a breakpoint on any one instruction (any two, in three shapes), kept or removed when reached")

SHAPES = {
    "straight": ("a = ev(1)\nb = ev(2, a)\nR = [a, b]\n", {"ev": (E1,)}),
    "branch": ("if c(1):\n    R = ev(1)\nelif T(2):\n    R = ev(2)\nelse:\n    R = 3\n", {"bool": (E1,)}),
    "while": ("R = 0\nwhile R < 3:\n    R = R + 1\n    if c(1):\n        continue\n    if c(2):\n        break\n", None),
    "for": ("R = []\nfor x in it(1):\n    if c(x):\n        continue\n    R.append(x)\nelse:\n    R.append(ev(9))\n", {"next": (E1,)}),
    "call": ("def f(x, y=2):\n    return ev(1, x, y)\ndef g(x):\n    return [f(x), f(x, y=3)]\nR = g(5)\n", {"ev": (E1,)}),
    "recursion": ("def f(x):\n    if x == 0:\n        return [ev(1)]\n    return [x] + f(x - 1)\nR = f(2)\n", {"ev": (E1,)}),
    "try": ("def f():\n    try:\n        return ev(1)\n    except E2:\n        return ev(2)\n    finally:\n        ev(3)\ntry:\n    R = f()\nexcept E1:\n    R = 'E1'\n",
            {("ev", 1): (E1, E2), ("ev", 2): (E3,), ("ev", 3): (E1,)}),
    "generator": ("def g(n):\n    for i in (1, 2):\n        x = yield ev(1, i)\n        ev(2, x)\nR = []\nfor v in g(1):\n    R.append(v)\n", {"ev": (E1,)}, {"lo": (2, 5)}),
    "generators": ("def g(n):\n    yield n\n    yield n + 1\na = g(1)\nb = g(5)\nR = [next(a), next(b), next(a), next(b)]\nfor x in a:\n    R.append(x)\n", None),
    "generator-fails": ("def g():\n    try:\n        yield ev(1)\n        yield ev(2)\n    finally:\n        ev(3)\nR = []\ntry:\n    for x in g():\n        R.append(x)\nexcept E1:\n    R.append('E1')\n",
                        {"ev": (E1,)}, {"lo": (2, 5)}),
    "yield-from": ("def h():\n    x = yield 1\n    return ev(1)\ndef g():\n    y = yield from h()\n    yield y\nR = list(g())\n", {"ev": (E1,)}, {"lo": (3, 3)}),
    "with": ("R = []\nwith cm(1) as x:\n    R.append(ev(1))\nR.append(x)\n", {"ev": (E1,), "exit": (E2,)}),
    "class": ("class A(object):\n    x = ev(1)\n    def m(self):\n        return ev(2, self.x)\nR = A().m()\n", {"ev": (E1,)}),
    "closure": ("def f():\n    x = ev(1)\n    def g(y):\n        return (x, y, ev(2))\n    x = 7\n    return g\nR = f()(3)\n", {"ev": (E1,)}),
    "comprehension": ("def f(y):\n    return [ev(x) for x in y if c(x)]\nR = f((1, 2))\n", {"ev": (E1,)}),
    "lambda": ("R = sorted([3, 1, 2], key=lambda x: ev(1) - x)\n", {"ev": (E1,)}),
    "nested-try": ("R = []\nfor i in (1, 2):\n    try:\n        try:\n            ev(i)\n        except E2:\n            R.append('in')\n            raise\n    except E1:\n        R.append('out')\n        continue\n    R.append(i)\n",
                   {"ev": (E1, E2)}),
    "long": ("R = 0\n" + "".join("v%d = %d\n" % (i, i + 300) for i in range(130)) + "R = [v1, v129]\n" + "".join("w%d = v%d\n" % (i, i) for i in range(130))
             + "for i in (1, 2):\n    R.append(w128)\nev(1, w129)\n", {"ev": (E1,)}),
}
MASKS = range(128)


def source(name):
    t = SHAPES[name]
    return t[0], (t[1] if len(t) > 1 else None) or {}, (t[2] if len(t) > 2 else {})


def run(ctx, v, name, callback=None, flags=None, look=None):
    from xpython.vmtrace import PyVMTraced
    src, faults, _ = source(name)

    def thunk():
        env = Env(ctx, faults)
        ns = env.ns()
        if callback is None:
            vm = v.vm()
        else:
            vm = traced(PyVMTraced)(callback, v.vmtup, v.impl, event_flags=flags)
        try:
            execute(vm, compiled(v, src), ns, ns)
        finally:
            if look is not None:
                look(vm)
        return repr(ns.get("R", "<unbound>"))
    return ctx.run(thunk)


_TRACED = {}


def traced(cls):
    if cls not in _TRACED:
        _TRACED[cls] = guarded(cls)
    return _TRACED[cls]


def left(ctx):
    def look(vm):
        ctx.ok(not vm.frames and tuple(vm.exc_info) == (None, None, None), "nothing is left behind", lambda: "%r %r" % (vm.frames, vm.exc_info))
    return look


FEW = [0, 1, 2, 3, 4, 8, 12, 16, 32, 60, 64, 124, 127, 255]


def masks(v, name, deep=False):
    """Sets of event kinds."""
    def fn(ctx):
        flags = ctx.choose("event flags", list(MASKS) + [255, 128] if deep else FEW)
        seen = []

        def callback(event, offset, opname, op, line, int_arg, arg, vm):
            seen.append(event)
            return callback
        got = run(ctx, v, name, callback, flags, left(ctx))
        ctx.same(got, run(ctx, v, name), "same as untraced")
        kinds = {"line": 3, "instruction": 1, "call": 4, "return": 8, "exception": 16, "yield": 32}
        for k in set(seen):
            # "return" goes to the callback given, too
            ctx.ok(k in kinds and bool(flags & kinds[k]), "only the events asked for", lambda: "%s with flags %s" % (k, flags))
    return tier(H("%s/masks%s-%s" % (v, "-all" * deep, name), fn, str(v), max_paths=8000), deep)


def tier(h, deep):
    if deep:
        h.tier = "thorough"
    return h


def answers(v, name, deep=False):
    """The callback turns tracing off or finishes a frame."""
    def fn(ctx):
        at = ctx.choose("event number", range(1, 13 if deep else 9))
        answer = ctx.choose("answer", ["None", "finish", "other"])
        flags = ctx.choose("flags", [127, 126, 124] if deep else [127])
        n = [0]

        def callback(*a):
            n[0] += 1
            if n[0] != at:
                return callback
            return {"None": None, "finish": "finish", "other": other}[answer]

        def other(*a):
            return None
        got = run(ctx, v, name, callback, flags, left(ctx))
        ctx.same(got, run(ctx, v, name), "same as untraced")
    return tier(H("%s/answers%s-%s" % (v, "-all" * deep, name), fn, str(v), max_paths=8000), deep)


def codes(code):
    yield code
    for c in code.co_consts:
        if hasattr(c, "co_code"):
            yield from codes(c)


def offsets(v, code):
    if not hasattr(code, "asm"):
        import dis
        return [i.offset for i in dis.get_instructions(code)]
    out, i = [], 0
    word = v >= (3, 6)
    while i < len(code.co_code):
        op = code.co_code[i]
        if v.opc.opname[op] != "CACHE":
            out.append(i)
        i += 2 if word else 3 if op >= v.opc.HAVE_ARGUMENT else 1
    return out


def breakpoints(v, name, two=False, deep=False):
    def fn(ctx):
        code = compiled(v, source(name)[0])
        all_codes = list(codes(code))
        which = all_codes[ctx.choose("code", range(len(all_codes)))]
        offs = offsets(v, which)
        if name == "long" and not deep:
            # the two sides of the operands and jumps which need a prefix
            offs = offs[-30:]
        points = [offs[ctx.choose("instruction", range(len(offs)))]]
        if two:
            points.append(offs[ctx.choose("second", range(len(offs)))])
        flags = ctx.choose("flags", [127, 4] if deep else [4])
        after = ctx.choose("after", ["keep", "remove"])
        hits, wrong = [], []

        def callback(event, offset, opname, op, line, int_arg, arg, vm):
            f = vm.frame
            if event == "call" and f.f_code.co_name == which.co_name and f.f_code.co_code == which.co_code:
                for p in points:
                    vm.add_breakpoint(f, p)
            elif event == "breakpoint":
                hits.append(offset)
                if v.opc.opname[which.co_code[offset]] != opname:
                    wrong.append((offset, opname))
                if after == "remove":
                    for p in list(f.brkpt):
                        vm.remove_breakpoint(f, p)
            return callback
        before = which.co_code
        got = run(ctx, v, name, callback, flags, left(ctx))
        ctx.same(got, run(ctx, v, name), "same as untraced")
        ctx.ok(which.co_code == before, "the code is not changed")
        ctx.ok(not wrong, "the event names the program's instruction", lambda: str(wrong))
        allowed = {resolve(v, which, p) for p in points}
        ctx.ok(set(hits) <= allowed, "reached where set", lambda: "%s, set at %s" % (hits, allowed))
        if 0 in points and which is code:
            ctx.ok(bool(hits), "reached", lambda: "a breakpoint on the first instruction was not reached")
    return tier(H("%s/break%s-%s" % (v, "2" if two else "-all" * deep, name), fn, str(v), max_paths=40000), deep or two)


def resolve(v, code, p):
    """Prefixes belong to the instruction they extend."""
    while v.opc.opname[code.co_code[p]] == "EXTENDED_ARG":
        p += 2 if v >= (3, 6) else 3
    return p


def host_calls(ctx, name):
    """The calls and returns of the program as the host's monitoring has them."""
    src, faults, _ = source(name)
    code = compiled(None, src)
    mon = sys.monitoring
    seen = []

    def add(what):
        def cb(co, *a):
            if co.co_filename == "<symx>":
                seen.append((what, co.co_name))
        return cb
    E = mon.events
    table = {E.PY_START: "in", E.PY_RESUME: "in", E.PY_RETURN: "out", E.PY_YIELD: "out", E.PY_UNWIND: "fail"}

    def thunk():
        ns = Env(ctx, faults).ns()
        mon.use_tool_id(3, "symx")
        try:
            for e, w in table.items():
                mon.register_callback(3, e, add(w))
            mon.set_events(3, sum(table))
            exec(code, ns)
        finally:
            mon.set_events(3, 0)
            for e in table:
                mon.register_callback(3, e, None)
            mon.free_tool_id(3)
    ctx.run(thunk)
    return seen


def order(v, name):
    """With every event on, calls nest as in Python and each instruction of a frame is told of once, where it is."""
    def fn(ctx):
        log, bad = [], []
        frames = []

        def callback(event, offset, opname, op, line, int_arg, arg, vm):
            f = vm.frame
            if event in ("call", "yield"):
                frames.append(f)
                log.append(("in", f.f_code.co_name))
            elif event in ("line", "instruction"):
                if not frames or frames[-1] is not f:
                    bad.append("%s in a frame that is not the latest" % event)
                real = v.opc.opname[f.f_code.co_code[offset]] if offset < len(f.f_code.co_code) else "nothing"
                if real != opname or f.f_lasti != offset:
                    bad.append("%s names %s at %s, the code has %s, f_lasti is %s" % (event, opname, offset, real, f.f_lasti))
                if (event == "line") != (line is not None) or line is not None and line not in f.linestarts.values():
                    bad.append("%s with line %s" % (event, line))
            elif event in ("return", "exception"):
                f = frames.pop()
                log.append(("out" if event == "return" else "fail", f.f_code.co_name))
            return callback
        got = run(ctx, v, name, callback, 127, left(ctx))
        ctx.ok(not bad, "location", lambda: bad[0])
        ctx.ok(not frames, "calls and returns match", lambda: str(log))
        want = host_calls(ctx, name)
        if v < (3, 0) or not (v >= (3, 12)):
            skip = ("<listcomp>",)
        else:
            skip = ()
        have = [x for x in log if x[1] not in skip]
        ctx.ok(have == [x for x in want if x[1] not in skip], "order of calls and returns", lambda: "%s\n  Python: %s" % (have, want))
    return H("%s/order-%s" % (v, name), fn, str(v), max_paths=6000)


def harnesses():
    hs = []
    for v in ALL:
        for name in SHAPES:
            src, _, opts = source(name)
            if not supported(v, src) or (opts.get("lo") and v < opts["lo"]):
                continue
            for deep in (False, True):
                if name != "long":
                    hs += [masks(v, name, deep), answers(v, name, deep)]
                hs.append(breakpoints(v, name, False, deep))
            if name != "long":
                hs.append(order(v, name))
            if name in ("while", "try", "generator"):
                hs.append(breakpoints(v, name, True))
    return hs


BOUNDS = BOUNDS % len(SHAPES)
