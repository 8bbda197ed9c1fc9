"""C01 instruction decoding: operands, EXTENDED_ARG, instruction length, jump targets."""
from symx.lib import *  # noqa

PROP = "C01"
ASSUMPTIONS = [
    "constant, name and local-variable pools have an entry for every index (lazy pools), so an operand is never out of "
    "range; the line table is empty",
]
BOUNDS = ("operand bytes fully symbolic (0..255 each); up to one EXTENDED_ARG prefix before 3.6, up to three from 3.6 "
          "on; programs of <= 6 instructions; jump operands up to 2^32; jump targets "
          "outside the <= 6 instruction program itself")

BIG = 1 << 41


def enc(v, op, nbytes):
    """bytes and positions of the operand bytes (least significant first) of `op`
    with nbytes operand bytes in total"""
    o = v.opc.opmap[op]
    E = v.opc.EXTENDED_ARG
    if v < (3, 6):
        if nbytes <= 2:
            return [o, 0, 0], [1, 2]
        return [E, 0, 0, o, 0, 0], [4, 5, 1, 2]
    out, pos = [], []
    for k in range(nbytes - 1):
        out += [E, 0]
        pos.insert(0, 2 * k + 1)
    out += [o, 0]
    pos.insert(0, 2 * (nbytes - 1) + 1)
    out += [0, 0] * caches(v, op)
    return out, pos


def sizes(v):
    return (2, 4) if v < (3, 6) else (1, 2, 3, 4)


class Prog:
    def __init__(self, ctx, v):
        self.ctx, self.v, self.b, self.sym, self.n = ctx, v, [], {}, 0

    def op(self, name, arg=None, nbytes=None, prefix=None):
        """Append; symbolic operand if nbytes is given: returns its value term."""
        v = self.v
        if nbytes is None:
            a = Asm(v)
            self.b += a.encode(name, arg)
            return arg
        code, pos = enc(v, name, nbytes)
        base = len(self.b)
        self.b += code
        val = 0
        for k, p in enumerate(pos):
            x = self.ctx.int("%s%d_b%d" % (prefix or "arg", self.n, k), 0, 255)
            self.sym[base + p] = x
            val = val + x * (1 << (8 * k))
        self.n += 1
        return val

    def here(self):
        return len(self.b)

    def run(self, env=None, **attrs):
        ctx, v = self.ctx, self.v
        code = make(v, [], raw=bytes(self.b))
        code.co_code = FetchCode(bytes(self.b), self.sym)
        for k, x in attrs.items():
            setattr(code, k, x)
        ns = LazyNS("local", env or {})
        g = {"__builtins__": dict(BUILTINS), "__name__": "symx"}

        def thunk():
            vm = v.vm()
            frame = vm.make_frame(code, f_globals=g, f_locals=ns)
            frame.linestarts = AnyKey()
            frame.line_starts = []
            try:
                return vm.eval_frame(frame)
            except engine.PathStop:
                raise
            except Exception as e:
                from xpython.vm import PyVMUncaughtException
                if isinstance(e, PyVMUncaughtException):
                    raise normalise(vm) from None
                raise
        return ctx.run(thunk)


def pools():
    mk = lambda i: Obj(("const", i))
    nm = lambda i: SName(i)
    return dict(co_consts=Pool(BIG, mk), co_names=Pool(BIG, nm), co_varnames=Pool(BIG, nm))


def operand(v, op, term, nbytes):
    def fn(ctx):
        p = Prog(ctx, v)
        k = p.op(op, nbytes=nbytes)
        p.op("RETURN_VALUE")
        # LOAD_FAST is found in functions, whose code is "optimized"
        got = p.run(co_flags=1 if op == "LOAD_FAST" else 0, **pools())
        ctx.same(got, ctx.run(lambda: Obj((term, k))), "operand value")
    return H("%s/%s-%d" % (v, op, nbytes), fn, str(v))


def sequence(v, nbytes):
    """An extended operand belongs to its own instruction only."""
    def fn(ctx):
        p = Prog(ctx, v)
        a = p.op("LOAD_CONST", nbytes=nbytes)
        p.op("POP_TOP")
        b = p.op("LOAD_NAME", nbytes=sizes(v)[0])
        p.op("NOP") if v.has("NOP") else None
        c = p.op("LOAD_CONST", nbytes=sizes(v)[0])
        p.op("BUILD_TUPLE", 2)
        p.op("RETURN_VALUE")
        got = p.run(**pools())
        ctx.same(got, ctx.run(lambda: (Obj(("local", b)), Obj(("const", c)))), "operands in sequence")
    return H("%s/SEQ-%d" % (v, nbytes), fn, str(v))


def outside(addr, end):
    if not (addr < 0 or addr >= end):
        raise engine.Infeasible()


def jump(v, op, nbytes, pre=(), env=None, skip_end=0, label="jump target"):
    """The address fetched after taking the jump."""
    unit = 2 if v >= (3, 10) else 1
    o = v.opc.opmap[op]

    def fn(ctx):
        p = Prog(ctx, v)
        for name in env or ():
            p.b += [v.opc.opmap["LOAD_NAME"]] + ([0, 0] if v < (3, 6) else [0])
        for q in pre:
            p.op(*q)
        a = p.op(op, nbytes=nbytes)
        nxt = p.here()
        if o in v.opc.JABS_OPS:
            want = a * unit
        elif "BACKWARD" in op:
            want = nxt - a * unit
        else:
            want = nxt + a * unit
        # an address inside the program itself would be executed, not reported
        outside(want, nxt)
        got = p.run(env=env and {"x": env["x"]}, co_names=("x",))
        if skip_end and got.kind == "fetch":
            # 3.12 FOR_ITER: on END_FOR (which then pops the iterator) or past it
            ctx.ok(ctx.disj([ctx.formula_eq(got.value, want), ctx.formula_eq(got.value, want + 2)]), label,
                   lambda: "got %s want %s or +2" % (got, want))
            return
        ctx.same(got, engine.Outcome("fetch", want, []), label, events=False)
    return H("%s/%s-%d" % (v, op, nbytes), fn, str(v), max_paths=400)


class Empty:
    def __iter__(self):
        return self

    def __next__(self):
        raise StopIteration

    next = __next__


def harnesses():
    hs = []
    for v in ALL + MICRO:
        for nb in sizes(v):
            for op, term in (("LOAD_CONST", "const"), ("LOAD_NAME", "local")):
                hs.append(operand(v, op, term, nb))
            hs.append(operand(v, "LOAD_FAST", "local", nb))
            hs.append(sequence(v, nb))
            for op in ("JUMP_FORWARD", "JUMP_ABSOLUTE", "JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT",
                       "JUMP_IF_NOT_DEBUG"):
                if v.has(op):
                    hs.append(jump(v, op, nb))
            for op, x in (("JUMP_IF_FALSE", 0), ("JUMP_IF_TRUE", 1), ("POP_JUMP_IF_FALSE", 0), ("POP_JUMP_IF_TRUE", 1),
                          ("JUMP_IF_FALSE_OR_POP", 0), ("JUMP_IF_TRUE_OR_POP", 1), ("POP_JUMP_FORWARD_IF_TRUE", True),
                          ("POP_JUMP_FORWARD_IF_FALSE", False), ("POP_JUMP_BACKWARD_IF_TRUE", True),
                          ("POP_JUMP_BACKWARD_IF_FALSE", False), ("POP_JUMP_FORWARD_IF_NONE", None),
                          ("POP_JUMP_FORWARD_IF_NOT_NONE", 1), ("POP_JUMP_BACKWARD_IF_NONE", None),
                          ("POP_JUMP_BACKWARD_IF_NOT_NONE", 1), ("POP_JUMP_IF_NONE", None),
                          ("POP_JUMP_IF_NOT_NONE", 1)):
                if v.has(op):
                    hs.append(jump(v, op, nb, env={"x": x}))
            hs.append(jump(v, "FOR_ITER", nb, env={"x": Empty()}, skip_end=2 if v >= (3, 12) else 0))
            if v.has("SETUP_LOOP"):
                hs.append(block_exit(v, "SETUP_LOOP", nb, [("BREAK_LOOP",)]))
            if v.has("CONTINUE_LOOP"):
                hs.append(jump(v, "CONTINUE_LOOP", nb, pre=[("SETUP_LOOP", 0)]))
            for op in ("SETUP_EXCEPT", "SETUP_FINALLY"):
                if v.has(op) and v.opc.opmap[op] < 256:
                    hs.append(block_exit(v, op, nb, [("POP_TOP",)]))
    return hs


def block_exit(v, op, nbytes, after):
    """The address a block set up with a symbolic operand leads to."""
    unit = 2 if v >= (3, 10) else 1

    def fn(ctx):
        p = Prog(ctx, v)
        a = p.op(op, nbytes=nbytes)
        nxt = p.here()
        if op == "SETUP_LOOP":
            p.op("BREAK_LOOP")
        else:
            # an undefined name: raises
            p.b += [v.opc.opmap["LOAD_GLOBAL"]] + ([0, 0] if v < (3, 6) else [0])
        want = nxt + a * unit
        outside(want, p.here())
        got = p.run(co_names=("missing",))
        ctx.same(got, engine.Outcome("fetch", want, []), "block exit address", events=False)
    return H("%s/%s-%d" % (v, op, nbytes), fn, str(v), max_paths=400)
