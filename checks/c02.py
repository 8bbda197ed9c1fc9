"""C02 stack-manipulation instructions: same values, same order, on every version."""
from symx.lib import *  # noqa

PROP = "C02"
ASSUMPTIONS = ["values on the stack are opaque objects (these instructions perform no operation on them)"]
BOUNDS = ("every stack-manipulation opcode of each of the 28 bytecode versions; stacks of 3..9 entries; the operand "
          "byte of DUP_TOPX/ROT_N/COPY/SWAP is symbolic over every legal depth up to 8")


def check(v, op, n, model):
    ins = ["x%d" % i for i in range(n)]

    def fn(ctx):
        objs = [ctx.obj(i) for i in ins]
        want = model(list(objs))
        code = program(v, [(op,)], ins, len(want))
        got = run_program(ctx, v, code, dict(zip(ins, objs)))
        ctx.same(got, ctx.run(lambda: tuple(want)), "stack")
    return H("%s/%s" % (v, op), fn, str(v))


def check_operand(v, op, n, lo, hi, model):
    """The operand is symbolic; the stack has n entries."""
    ins = ["x%d" % i for i in range(n)]

    def fn(ctx):
        objs = [ctx.obj(i) for i in ins]
        k = ctx.int("operand", lo, hi)
        grow = len(model(list(objs), lo)) - n
        if op == "DUP_TOPX":
            k = ctx.choose("depth", range(lo, hi + 1))
            grow = k
        code = program(v, [(op, 1)], ins, n + grow)
        patch(ctx, code, op, [k] + ([0] if v < (3, 6) else []))
        got = run_program(ctx, v, code, dict(zip(ins, objs)))
        # by now the path fixes the operand; the reference reads the same symbol
        ctx.same(got, ctx.run(lambda: tuple(model(list(objs), int(k)))), "stack")
    return H("%s/%s" % (v, op), fn, str(v))


def swap(s, k):
    s[-1], s[-k] = s[-k], s[-1]
    return s


def harnesses():
    hs = []
    for v in ALL + MICRO:
        def add(op, n, model):
            if v.has(op):
                hs.append(check(v, op, n, model))
        for n in (3, 6):
            if v.has("POP_TOP"):
                hs.append(check(v, "POP_TOP", n, lambda s: s[:-1]))
                hs[-1].hid += "-%d" % n
        add("NOP", 4, lambda s: s)
        add("ROT_TWO", 4, lambda s: s[:-2] + [s[-1], s[-2]])
        add("ROT_THREE", 5, lambda s: s[:-3] + [s[-1], s[-3], s[-2]])
        if v < (3, 0) or v >= (3, 8):
            add("ROT_FOUR", 6, lambda s: s[:-4] + [s[-1], s[-4], s[-3], s[-2]])
        add("DUP_TOP", 3, lambda s: s + [s[-1]])
        add("DUP_TOP_TWO", 4, lambda s: s + s[-2:])
        for op, lo, hi, model in [
            ("DUP_TOPX", 1, 5, lambda s, k: s + s[-k:]),
            ("ROT_N", 2, 8, lambda s, k: s[:-k] + [s[-1]] + s[-k:-1]),
            ("COPY", 1, 8, lambda s, k: s + [s[-k]]),
            ("SWAP", 2, 8, swap),
        ]:
            if v.has(op):
                hs.append(check_operand(v, op, 9, lo, hi, model))
    return hs
