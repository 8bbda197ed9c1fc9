"""C04 conditional jumps and loops: the truth and iteration protocols."""
from symx.lib import *  # noqa

PROP = "C04"
ASSUMPTIONS = ["source programs are compiled for each version by symx/pyc.py (3.12: the host's own compiler), which "
               "follows that version's compile.c", "the reference for source programs is the host Python"]
BOUNDS = ("every conditional jump opcode of the 28 versions with an opaque tested value (symbolic truth, symbolic "
          "raise), None, True, False, 0 and ints; forward and backward targets; loops over iterators of symbolic length "
          "<= 3 with a symbolic raise at each step, nested two deep, with symbolic break/continue/return/else")


class Dst:
    pass


def jump_prog(v, op, back):
    """Push a marker and x; jump; report which way, and the stack."""
    jmp = [(op, Label("T"))]
    tail = [("LOAD_NAME", N("_fell")), ("BUILD_TUPLE", K_REST), ("RETURN_VALUE",)]
    return jmp, tail


K_REST = None


def cond(v, op, keep, drop_on_fall, back):
    """keep: is the value still there after the jump / after falling through?"""
    kj, kf = keep

    def build():
        head = [("LOAD_NAME", N("_sentinel")), ("LOAD_NAME", N("x"))]
        taken = [("label", "T"), ("LOAD_NAME", N("taken")), ("BUILD_TUPLE", 2 + kj), ("RETURN_VALUE",)]
        fell = [("LOAD_NAME", N("fell")), ("BUILD_TUPLE", 2 + kf), ("RETURN_VALUE",)]
        if back:
            pre = [("JUMP_FORWARD", Label("S"))]
            return make(v, pre + taken + [("label", "S")] + head + [(op, Label("T"))] + fell)
        return make(v, head + [(op, Label("T"))] + fell + taken)
    return build


def truth(x):
    return True if x else False


def cond_harness(v, op, when, keep, what, back=False):
    """when(x) -> jump?; keep = (entries left when taken, when not taken) of the value"""
    def fn(ctx):
        x = {"obj": lambda: ctx.obj("x"), "none": lambda: None, "true": lambda: True, "false": lambda: False,
             "int": lambda: ctx.int("i", -2, 2), "str": lambda: ctx.choose("s", ["", "a"]),
             "list": lambda: ctx.choose("l", [[], [0]])}[what]()
        ctx.faults = {"bool"}
        code = cond(v, op, keep, 0, back)()
        got = ctx.run(lambda: execute(v.vm(), code, None, {"_sentinel": SENT, "x": x, "taken": "T", "fell": "F"}))

        def model():
            t = when(x)
            k = keep[0] if t else keep[1]
            return (SENT,) + ((x,) if k else ()) + ("T" if t else "F",)
        want = ctx.run(model)
        ctx.same(got, want, "branch")
    return H("%s/%s/%s%s" % (v, op, what, "/back" if back else ""), fn, str(v))


CONDS = {
    "JUMP_IF_FALSE": (lambda x: not truth(x), (1, 1)),
    "JUMP_IF_TRUE": (truth, (1, 1)),
    "POP_JUMP_IF_FALSE": (lambda x: not truth(x), (0, 0)),
    "POP_JUMP_IF_TRUE": (truth, (0, 0)),
    "JUMP_IF_FALSE_OR_POP": (lambda x: not truth(x), (1, 0)),
    "JUMP_IF_TRUE_OR_POP": (truth, (1, 0)),
    "POP_JUMP_FORWARD_IF_FALSE": (lambda x: not truth(x), (0, 0)),
    "POP_JUMP_FORWARD_IF_TRUE": (truth, (0, 0)),
    "POP_JUMP_BACKWARD_IF_FALSE": (lambda x: not truth(x), (0, 0)),
    "POP_JUMP_BACKWARD_IF_TRUE": (truth, (0, 0)),
    "POP_JUMP_FORWARD_IF_NONE": (lambda x: x is None, (0, 0)),
    "POP_JUMP_FORWARD_IF_NOT_NONE": (lambda x: x is not None, (0, 0)),
    "POP_JUMP_BACKWARD_IF_NONE": (lambda x: x is None, (0, 0)),
    "POP_JUMP_BACKWARD_IF_NOT_NONE": (lambda x: x is not None, (0, 0)),
    "POP_JUMP_IF_NONE": (lambda x: x is None, (0, 0)),
    "POP_JUMP_IF_NOT_NONE": (lambda x: x is not None, (0, 0)),
}


def for_iter(v):
    """FOR_ITER alone: item pushed above the iterator, or the iterator popped and a jump."""
    def fn(ctx):
        end = [("END_FOR",)] if v >= (3, 12) else []
        code = make(v, [("LOAD_NAME", N("_sentinel")), ("LOAD_NAME", N("x")), ("FOR_ITER", Label("T")),
                        ("LOAD_NAME", N("fell")), ("BUILD_TUPLE", 4), ("RETURN_VALUE",), ("label", "T")] + end +
                    [("LOAD_NAME", N("taken")), ("BUILD_TUPLE", 2), ("RETURN_VALUE",)])
        faults = {"next": (E1, ValueError)}

        def go(on):
            env = Env(ctx, faults)
            x = It(env, "x", 1)
            if on:
                r = execute(v.vm(), code, None, {"_sentinel": SENT, "x": x, "taken": "T", "fell": "F"})
                return tuple("it" if e is x else e for e in r)
            try:
                i = next(x)
            except StopIteration:
                return (SENT, "T")
            return (SENT, "it", i, "F")
        ctx.same(ctx.run(lambda: go(1)), ctx.run(lambda: go(0)), "for_iter")
    return H("%s/FOR_ITER" % v, fn, str(v))


def get_iter(v):
    def fn(ctx):
        code = program(v, [("GET_ITER",)], ["x"])
        how = ctx.choose("how", ["it", "raise", "seq", "none", "int", "gen"])

        class Seq:
            def __getitem__(self, i):
                return i

        class NoIter:
            __iter__ = None
        env0 = {}

        def go(on):
            env = Env(ctx, {"iter": (E1, TypeError)} if how == "raise" else None)
            x = {"it": It(env, "x", 1), "raise": It(env, "x", 1), "seq": Seq(), "none": NoIter(), "int": 3,
                 "gen": [1, 2]}[how]
            if on:
                r = execute(v.vm(), code, None, {"_sentinel": SENT, "x": x})[1:]
            else:
                r = (iter(x),)
            ctx.event(type(r[0]).__name__, r[0] is x, next(r[0], None) if how in ("seq", "gen") else 0)
            return len(r)
        ctx.same(ctx.run(lambda: go(1)), ctx.run(lambda: go(0)), "iter")
    return H("%s/GET_ITER" % v, fn, str(v))


SRC = {
    "if": '''
def main():
    if T(1): ev("a")
    elif T(2): ev("b")
    else: ev("d")
    return "end"
R = main()
''',
    "ifnot": '''
def main():
    if not T(1): ev("a")
    if not (T(2) and T(3)) or T(4): return "x"
    return "end"
R = main()
''',
    "boolop": '''
R = (T(1) and T(2) or T(3), (T(4) or T(5)) and T(6))
''',
    "ifexp": '''
R = (ev("a") if T(1) else ev("b"), 1 if not T(2) else 2)
''',
    "while": '''
def main():
    k = 0
    while T(0):
        k += 1
        ev("body", k)
        if k > 2: break
        if c(1): continue
        ev("tail", k)
    else:
        ev("else")
    return k
R = main()
''',
    "for": '''
def main():
    k = None
    for k in it("x", 2):
        ev("body", k)
        if c(1): continue
        if c(2): break
        ev("tail")
    else:
        ev("else")
    return k
R = main()
''',
    "for-return": '''
def main():
    for k in it("x", 2):
        for j in it("y", 1):
            if c(1): return (k, j)
        else:
            if c(2): continue
        if c(3): break
    else:
        return "else"
    return "end"
R = main()
''',
    "nested": '''
def main():
    for k in it("x", 2):
        i = 0
        while i < 2:
            i += 1
            if c(1): break
            if c(2): continue
            ev("w", i)
        else:
            ev("welse")
        ev("tail", k)
    return i if c(9) else "n"
R = main()
''',
    "module-loop": '''
out = []
for k in it("x", 2):
    if c(1): continue
    out.append(k)
else:
    out.append("else")
R = out
''',
    "chain-cond": '''
def main():
    x = n(1)
    y = n(2)
    r = []
    if 0 < x < y: r.append("lt")
    if x == y == 1: r.append("eq")
    if x is None or y is not None: r.append("none")
    if not x <= y: r.append("gt")
    while 0 <= x < 2:
        x += 1
        r.append(x)
    return r
R = main()
''',
    "none-tests": '''
def main():
    r = []
    for k in it("x", 1):
        x = None if c(1) else T(2)
        if x is None: r.append("none")
        if x is not None: r.append("some")
        while x is None:
            x = 1
        while x is not None:
            r.append("w")
            x = None
    return r
R = main()
''',
}
SRC.update({
    "any-items": '''
def main():
    r = []
    for x in (pv(1), pv(2)):
        r.append(x)
    else:
        r.append("else")
    return r
R = main()
''',
    "any-return": '''
def main():
    for x in [pv(1), "y"]:
        for y in (pv(2),):
            return x, y
R = main()
''',
    "any-boolop": '''
R = (pv(1) and pv(2), pv(3) or pv(4))
''',
    "any-is-none": '''
def main():
    x = pv(1)
    r = []
    if x is None: r.append("n")
    if x is not None: r.append("nn")
    if x is False: r.append("f")
    return (r, "n" if x is None else "s")
R = main()
''',
})
RAISING = {
    "raise-if": ('''
def main():
    try:
        if T(1): return "t"
        else: return "f"
    except E1:
        return "caught"
R = main()
''', {"bool": (E1, E3)}),
    "raise-while": ('''
def main():
    k = 0
    while T(1):
        k += 1
        if k == 2: return "two"
    return k
R = main()
''', {"bool": (E1, StopIteration)}),
    "raise-for": ('''
def main():
    for k in it("x", 2):
        ev("body", k)
    else:
        ev("else")
    return "end"
R = main()
''', {"next": (E1, IndexError), "iter": (E1,), "ev": (E1, StopIteration)}),
    "raise-bool": ('''
R = (T(1) and T(2), T(3) or T(4))
''', {"bool": (E1,)}),
}


def harnesses():
    hs = []
    for v in ALL + MICRO:
        for op, (when, keep) in CONDS.items():
            if not v.has(op):
                continue
            if op.startswith("JUMP_IF") and "OR_POP" not in op and v >= (2, 7):
                continue
            if "BACKWARD" in op:
                dirs = [True]
            elif "FORWARD" in op or op in ("JUMP_IF_FALSE", "JUMP_IF_TRUE"):
                dirs = [False]
            else:
                dirs = [False, True] if op.startswith("POP_JUMP") and v < (3, 12) else [False]
            if v >= (3, 12) and ("FORWARD" in op or "BACKWARD" in op or "OR_POP" in op):
                continue     # pseudo opcodes, never in compiled code
            for back in dirs:
                for what in (["obj", "none"] if "NONE" in op else ["obj", "none", "true", "false", "int", "str", "list"]):
                    hs.append(cond_harness(v, op, when, keep, what, back))
        hs.append(for_iter(v))
        hs.append(get_iter(v))
    hs += src_checks(ALL, SRC)
    hs += src_checks(ALL, RAISING)
    return hs
