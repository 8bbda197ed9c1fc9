"""Assembler: instruction lists -> xdis portable code objects, per bytecode version."""
from symx.engine import guarded
from xdis.codetype import to_portable
from xdis.op_imports import get_opcode_module
from xdis.version_info import PythonImplementation


class Ver:
    def __init__(self, tup, pypy=False, vmtup=None):
        self.tup = tup[:2]
        self.pypy = pypy
        self.vmtup = vmtup or tup
        self.name = ("pypy" if pypy else "") + "%d.%d" % self.tup
        if vmtup:
            self.name += ".x"
        self.impl = PythonImplementation.PyPy if pypy else PythonImplementation.CPython
        self._opc = None

    @property
    def opc(self):
        if self._opc is None:
            self._opc = get_opcode_module(self.vmtup, self.impl)
        return self._opc

    def __repr__(self):
        return self.name

    def __ge__(self, t):
        return self.tup >= tuple(t)

    def __lt__(self, t):
        return self.tup < tuple(t)

    def has(self, op):
        return op in self.opc.opmap

    def vm(self, cls=None, **kw):
        if cls is None:
            from xpython.vm import PyVM as cls
        return guarded(cls)(self.vmtup, self.impl, **kw)


CPY = [Ver(t) for t in [(2, 4), (2, 5), (2, 6), (2, 7), (3, 1), (3, 2), (3, 3), (3, 4), (3, 5), (3, 6), (3, 7),
                        (3, 8), (3, 9), (3, 10), (3, 11), (3, 12)]]
PYPY = [Ver(t, True) for t in [(2, 7), (3, 2), (3, 5), (3, 6), (3, 7), (3, 8), (3, 9)]]
# the same releases as seen with a micro version (source files, some .pyc magics)
MICRO = [Ver((3, 5), vmtup=(3, 5, 2)), Ver((3, 7), vmtup=(3, 7, 0)), Ver((3, 8), vmtup=(3, 8, 0)),
         Ver((3, 9), vmtup=(3, 9, 0)), Ver((3, 12), vmtup=(3, 12, 0))]
ALL = CPY + PYPY


def ver(s):
    for v in ALL + MICRO:
        if v.name == s:
            return v
    raise KeyError(s)


class Label:
    def __init__(self, n):
        self.n = n


class K:  # constant
    def __init__(self, v):
        self.v = v


class N:  # co_names
    def __init__(self, n, low=None):
        self.n, self.low = n, low


class V:  # co_varnames
    def __init__(self, n):
        self.n = n


class D:  # cell / free variable
    def __init__(self, n):
        self.n = n


CACHES = {
    (3, 11): {"BINARY_OP": 1, "BINARY_SUBSCR": 4, "CALL": 4, "COMPARE_OP": 2, "LOAD_ATTR": 4, "LOAD_GLOBAL": 5,
              "LOAD_METHOD": 10, "PRECALL": 1, "STORE_ATTR": 4, "STORE_SUBSCR": 1, "UNPACK_SEQUENCE": 1},
    (3, 12): {"BINARY_SUBSCR": 1, "STORE_SUBSCR": 1, "UNPACK_SEQUENCE": 1, "FOR_ITER": 1, "STORE_ATTR": 4,
              "LOAD_ATTR": 9, "COMPARE_OP": 1, "LOAD_GLOBAL": 4, "BINARY_OP": 1, "SEND": 1, "LOAD_SUPER_ATTR": 1,
              "CALL": 3},
}


def caches(ver, op):
    return CACHES.get(ver.tup, {}).get(op, 0)


class Asm:
    """Collects pools while instructions are being assembled."""

    def __init__(self, ver, varnames=(), cellvars=(), freevars=(), names=(), consts=()):
        self.ver = ver
        self.consts = list(consts)
        self.names = list(names)
        self.varnames = list(varnames)
        self.cellvars = list(cellvars)
        self.freevars = list(freevars)

    def _ix(self, pool, v):
        for i, x in enumerate(pool):
            if x is v or (type(x) is type(v) and isinstance(v, str) and x == v):
                return i
        pool.append(v)
        return len(pool) - 1

    def operand(self, op, a):
        if isinstance(a, K):
            return self._ix(self.consts, a.v)
        if isinstance(a, N):
            i = self._ix(self.names, a.n)
            if self.ver >= (3, 11) and (op == "LOAD_GLOBAL" or (self.ver >= (3, 12) and op == "LOAD_ATTR")):
                return i * 2 + (1 if a.low else 0)
            return i
        if isinstance(a, V):
            return self._ix(self.varnames, a.n)
        if isinstance(a, D):
            if self.ver >= (3, 11):
                plus = self.localsplus()
                return plus.index(a.n)
            if a.n in self.cellvars:
                return self.cellvars.index(a.n)
            return len(self.cellvars) + self.freevars.index(a.n)
        return a

    def localsplus(self):
        # CPython 3.11+: locals (cells that are also parameters share the slot),
        # then the other cells, then the free variables
        return self.varnames + [c for c in self.cellvars if c not in self.varnames] + [
            f for f in self.freevars]

    def encode(self, op, arg, force_ext=0):
        opc = self.ver.opc
        o = opc.opmap[op]
        out = []
        if self.ver >= (3, 6):
            if o >= opc.HAVE_ARGUMENT:
                a = arg or 0
                hi = a >> 8
                parts = []
                while hi:
                    parts.append(hi & 255)
                    hi >>= 8
                while len(parts) < force_ext:
                    parts.append(0)
                for p in reversed(parts):
                    out += [opc.EXTENDED_ARG, p]
                out += [o, a & 255]
            else:
                out += [o, 0]
            out += [0, 0] * caches(self.ver, op)
        else:
            if o >= opc.HAVE_ARGUMENT:
                a = arg or 0
                if a > 0xFFFF:
                    e = a >> 16
                    out += [opc.EXTENDED_ARG, e & 255, e >> 8]
                    a &= 0xFFFF
                out += [o, a & 255, a >> 8]
            else:
                out += [o]
        return out

    def assemble(self, instrs):
        """-> (bytes, labels, lines {offset: line})"""
        opc = self.ver.opc
        resolved = []
        instrs = [(ins,) if isinstance(ins, str) else ins for ins in instrs]
        for ins in instrs:      # slots of cells come after those of the locals
            if len(ins) > 1 and isinstance(ins[1], V):
                self.operand(ins[0], ins[1])
        for ins in instrs:
            op = ins[0]
            arg = ins[1] if len(ins) > 1 else None
            if op in ("label", "line"):
                resolved.append((op, arg))
                continue
            if op not in opc.opmap:
                raise KeyError("%s has no %s" % (self.ver, op))
            if not isinstance(arg, Label):
                arg = self.operand(op, arg)
            resolved.append((op, arg))
        sizes = [0 if op in ("label", "line") else len(self.encode(op, a if isinstance(a, int) else 0))
                 for op, a in resolved]
        for _ in range(20):
            offs, pos, labels = [], 0, {}
            for (op, a), s in zip(resolved, sizes):
                offs.append(pos)
                if op == "label":
                    labels[a] = pos
                pos += s
            new, out = [], []
            for (op, a), s, off in zip(resolved, sizes, offs):
                if op in ("label", "line"):
                    new.append(0)
                    continue
                if isinstance(a, Label):
                    a = self.jump_arg(op, off + s, labels[a.n])
                b = self.encode(op, a)
                while len(b) < s and self.ver >= (3, 6):
                    b = [opc.EXTENDED_ARG, 0] + b
                new.append(len(b))
                out += b
            if new == sizes:
                break
            sizes = [max(x, y) for x, y in zip(new, sizes)]
        lines = {}
        pending = None
        for (op, a), off in zip(resolved, offs):
            if op == "line":
                pending = a
            elif op != "label" and pending is not None:
                lines[off] = pending
                pending = None
        self.labels = labels
        self.offsets = [(op, off) for (op, a), off in zip(resolved, offs) if op not in ("label", "line")]
        return bytes(out), labels, lines

    def jump_arg(self, op, nxt, target):
        opc = self.ver.opc
        o = opc.opmap[op]
        unit = 2 if self.ver >= (3, 10) else 1
        if o in opc.JREL_OPS:
            d = target - nxt
            if "BACKWARD" in op:
                d = -d
            assert d >= 0, (op, nxt, target)
            return d // unit
        assert o in opc.JABS_OPS, op
        return target // unit


def _varint(v, first=0):
    out = []
    while v >= 64:
        out.append(64 | (v & 63))
        v >>= 6
    out.append(v)
    return out


def exc_table(entries):
    """entries (start, end, target, depth, lasti) in byte offsets -> 3.11+ table."""
    out = []

    def emit(v, first=False):
        parts = []
        while True:
            parts.append(v & 63)
            v >>= 6
            if not v:
                break
        parts.reverse()
        bs = [p | 64 for p in parts[:-1]] + [parts[-1]]
        if first:
            bs[0] |= 128
        out.extend(bs)

    for s, e, t, depth, lasti in entries:
        emit(s // 2, True)
        emit((e - s) // 2)
        emit(t // 2)
        emit((depth << 1) | (1 if lasti else 0))
    return bytes(out)


def linetable_310(lines, first, codelen):
    out = []
    items = sorted(lines.items())
    if not items or items[0][0] != 0:
        items = [(0, first)] + items
    line = first
    for i, (off, ln) in enumerate(items):
        end = items[i + 1][0] if i + 1 < len(items) else codelen
        d = ln - line
        line = ln
        size = end - off
        while d > 127 or d < -127:
            s = 127 if d > 0 else -127
            out += [0, s & 255]
            d -= s
        while size > 254:
            out += [254, d & 255]
            size -= 254
            d = 0
        out += [size, d & 255]
    return bytes(out)


def linetable_311(lines, first, codelen):
    out = []
    items = sorted(lines.items())
    if not items or items[0][0] != 0:
        items = [(0, first)] + items
    line = first
    for i, (off, ln) in enumerate(items):
        end = items[i + 1][0] if i + 1 < len(items) else codelen
        units = (end - off) // 2
        d = ln - line
        line = ln
        while units > 0:
            n = min(units, 8)
            out.append(0x80 | (13 << 3) | (n - 1))   # no column info
            u = (-d << 1) | 1 if d < 0 else d << 1
            out += _varint(u)
            d = 0
            units -= n
    return bytes(out)


CO_OPTIMIZED, CO_NEWLOCALS, CO_VARARGS, CO_VARKEYWORDS, CO_NESTED, CO_GENERATOR, CO_NOFREE = 1, 2, 4, 8, 16, 32, 64


def make(ver, instrs, varnames=(), cellvars=(), freevars=(), names=(), consts=(), argcount=0, posonly=0, kwonly=0,
         flags=0, name="<test>", firstlineno=1, exc=(), lnotab=None, stacksize=50, filename="<symx>", raw=None,
         lines=None, qualname=None, doc_const=True, doc=None):
    """Assemble to a portable code object."""
    a = Asm(ver, varnames, cellvars, freevars, names, [doc] + list(consts) if doc_const else list(consts))
    if raw is not None:
        co, labels, ln = raw, {}, dict(lines or {})
    else:
        co, labels, ln = a.assemble(instrs)
        if lines:
            ln.update(lines)
    if exc and isinstance(exc[0][0], str):
        exc = [(labels[s], labels[e], labels[t], d, l) for s, e, t, d, l in exc]
    if lnotab is None:
        if ver < (3, 10):
            lnotab = dict(ln) if ln else b""
        elif ver < (3, 11):
            lnotab = linetable_310(ln, firstlineno, max(len(co), 2))
        else:
            lnotab = linetable_311(ln, firstlineno, max(len(co), 2))
    code = to_portable(
        co_argcount=argcount, co_posonlyargcount=posonly, co_kwonlyargcount=kwonly, co_nlocals=len(a.varnames),
        co_stacksize=stacksize, co_flags=flags, co_code=co, co_consts=tuple(a.consts), co_names=tuple(a.names),
        co_varnames=tuple(a.varnames), co_filename=filename, co_name=name, co_qualname=qualname or name,
        co_firstlineno=firstlineno, co_lnotab=lnotab, co_freevars=tuple(a.freevars), co_cellvars=tuple(a.cellvars),
        co_exceptiontable=exc_table(exc) if ver >= (3, 11) else b"",
        version_triple=ver.tup + (0,),
    )
    code.labels = labels
    code.asm = a
    return code


def is_jump(ver, op):
    o = ver.opc.opmap[op]
    return o in ver.opc.JREL_OPS or o in ver.opc.JABS_OPS
