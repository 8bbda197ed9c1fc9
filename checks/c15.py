"""C15 instructions a version does not have are refused, and those it has are not."""
from symx.lib import *  # noqa

PROP = "C15"
ASSUMPTIONS = ["which numbers are instructions of a version is taken from xdis' opcode tables"]
BOUNDS = ("all instruction numbers 0..255 of every version and implementation, operand 0..2, with and without an exception "
          "handler of the program around it; versions (0..4).(0..20) with 2- and 3-element version tuples, CPython and PyPy")


def pools(code):
    """Give every kind of operand something to refer to."""
    code.co_consts = tuple(code.co_consts) + (None,) * 4
    code.co_names = tuple(code.co_names) + ("a", "b", "c")
    code.co_varnames = ("x", "y", "z")
    code.co_cellvars = ("p", "q", "r")


def undefined(v):
    """A program that has a symbolic instruction number where the version defines none, and
    that would notice if the interpreter went on after it."""
    nums = [i for i in range(256) if i not in set(v.opc.opmap.values())]

    def fn(ctx):
        op = ctx.int("opcode", 0, 255)
        cond = ctx.disj([op.t == i for i in nums]) if ctx.mode != "conc" else int(op) in nums
        ctx.assume(cond)
        code = program(v, [("NOP",)] if v.has("NOP") else [("LOAD_NAME", N("a")), ("POP_TOP",)], ["a", "b", "c", "d"], 3)
        pools(code)
        off = [o for n, o in code.asm.offsets if n in ("NOP", "POP_TOP")][0]
        if ctx.mode == "conc":
            b = bytearray(code.co_code)
            b[off] = int(op)
            code.co_code = bytes(b)
        else:
            code.co_code = SymCode(code.co_code, {off: op})
        ctx.opt_out = None
        env = {k: ctx.obj(k) for k in "abcd"}
        got = run_program(ctx, v, code, env)
        ctx.ok(got.kind == "exc", "refused", "instruction %s of %s was executed: %s" % (op, v, got))
        if got.kind == "exc":
            ctx.ok(type(got.value).__name__ == "PyVMError" or "PyVM" in str(got.value) or "Unknown bytecode" in str(got.value),
                   "interpreter error", "instruction %s of %s gave %r" % (op, v, got.value))
    return H("%s/undefined" % v, fn, v.name, max_paths=600)


# Never found in a code object: written by the specialising interpreter, by sys.monitoring or for a debugger of PyPy,
# or for a C stack frame of the interpreter itself.
NOT_IN_CODE = ("INSTRUMENTED_", "RESERVED", "INTERPRETER_EXIT", "CACHE", "LOAD_REVDB_VAR", "STOP_CODE")
# These refuse some operands on the stack, and the harness runs them on arbitrary ones.
OPERANDS_MATTER = {"CALL_METHOD"}


def defined(v, name, num):
    def fn(ctx):
        arg = ctx.choose("operand", [0, 1, 2] if name != "CALL_INTRINSIC_1" else range(1, 12) if v.tup == (3, 12) else [0])
        n = len(v.opc.opname)
        has = num >= v.opc.HAVE_ARGUMENT
        code = program(v, [(name, arg) if has else (name,)], list("abcdef"), 1)
        pools(code)
        old, engine.MAX_STEPS = engine.MAX_STEPS, 60
        try:
            got = run_program(ctx, v, code, {k: ctx.obj(k) for k in "abcdef"})
        finally:
            engine.MAX_STEPS = old
        txt = "%s" % (got.value,) if got.kind == "exc" else ""
        what = name if name != "CALL_INTRINSIC_1" else "%s %s" % (name, arg)
        ctx.ok(not ("Unknown bytecode type" in txt and txt.split()[-1] == name), "accepted", "%s of %s is refused: %s" % (what, v, txt[:100]))
        if type(got.value).__name__ == "PyVMError" and name not in OPERANDS_MATTER:
            label = "implemented" if name != "CALL_INTRINSIC_1" else "implemented-%s" % arg
            ctx.ok("not implemented" not in txt and "not fully implemented" not in txt, label,
                   "%s of %s is refused: %s" % (what, v, txt[:100]))
    return H("%s/defined-%s" % (v, name), fn, v.name)


SUPPORTED = {v.tup: 1 for v in CPY}
SUPPORTED_PYPY = {v.tup: 1 for v in PYPY}


def versions(pypy, micro):
    def fn(ctx):
        from xdis.version_info import PythonImplementation
        from xpython.vm import PyVM
        major, minor = ctx.choose("major", range(0, 5)), ctx.choose("minor", range(0, 21))
        t = (major, minor) + ((ctx.choose("micro", [0, 1, 2, 7, 18]),) if micro else ())
        impl = PythonImplementation.PyPy if pypy else PythonImplementation.CPython

        def mk():
            vm = PyVM(t, impl)
            return tuple(vm.byteop.version_info[:2]), vm.byteop.is_pypy, len(vm.opc.opname) >= 256, \
                tuple(vm.opc.version_tuple[:2])
        got = ctx.run(mk)
        if t[:2] in (SUPPORTED_PYPY if pypy else SUPPORTED):
            if not micro:
                ctx.ok(got.kind == "ret", "created", "%s %s was refused: %s" % (impl, t, got.value))
            if got.kind == "ret":
                ctx.ok(got.value == (t[:2], pypy, True, t[:2]), "its own version", "%s %s is run as %s" % (impl, t, got.value))
        else:
            ctx.ok(got.kind == "exc" and isinstance(got.value, Exception), "refused", "%s %s was accepted: %s" % (impl, t, got))
    return H("versions%s%s" % ("-pypy" if pypy else "", "-micro" if micro else ""), fn, "versions", max_paths=2000)


def harnesses():
    hs = [versions(p, m) for p in (False, True) for m in (False, True)]
    for v in ALL:
        hs.append(undefined(v))
        for name, num in sorted(v.opc.opmap.items()):
            if num < 256 and v.opc.opname[num] == name and not name.startswith(NOT_IN_CODE) and \
                    not (v.name == "pypy3.7" and name == "STORE_ANNOTATION"):    # a leftover of 3.6 in the table of xdis
                hs.append(defined(v, name, num))
    return hs
