"""A small cross-version compiler: Python source -> the bytecode the CPython (or
PyPy) compiler of a given version produces for it, as xdis code objects.

The same source is also run natively on the host, which gives the reference
behaviour.  3.12 bytecode comes from the host's own compile().  The other code
generators follow CPython's Python/compile.c of each version (block set-up and
unwinding per family: up to 3.7, 3.8, 3.9/3.10, 3.11).
"""
import ast
import symtable
import sys

from symx import asm
from symx.asm import D, K, Label, N, V

CMPOPS = {ast.Lt: "<", ast.LtE: "<=", ast.Eq: "==", ast.NotEq: "!=", ast.Gt: ">", ast.GtE: ">=", ast.In: "in",
          ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}
BINOPS = {ast.Add: "ADD", ast.Sub: "SUBTRACT", ast.Mult: "MULTIPLY", ast.Div: "TRUE_DIVIDE", ast.Mod: "MODULO",
          ast.Pow: "POWER", ast.LShift: "LSHIFT", ast.RShift: "RSHIFT", ast.BitAnd: "AND", ast.BitOr: "OR",
          ast.BitXor: "XOR", ast.FloorDiv: "FLOOR_DIVIDE", ast.MatMult: "MATRIX_MULTIPLY"}
NBOPS = ["ADD", "AND", "FLOOR_DIVIDE", "LSHIFT", "MATRIX_MULTIPLY", "MULTIPLY", "MODULO", "OR", "POWER", "RSHIFT",
         "SUBTRACT", "TRUE_DIVIDE", "XOR"]


CMPNAMES = ["<", "<=", "==", "!=", ">", ">=", "in", "not in", "is", "is not", "exception match"]


class Unsupported(Exception):
    """The version has no such construct."""


class FB:
    """A frame block known to the compiler."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class Comp:
    def __init__(self, ver, table, name, kind="function", parent=None, filename="<symx>", qual=None):
        self.v = ver
        self.t = table
        self.name = name
        self.kind = kind            # module, function, class, comp
        self.parent = parent
        self.out = []
        self.fb = []
        self.nl = 0
        self.filename = filename
        self.exc = []               # 3.11: (start, end, target, depth, lasti)
        self.depth = 0
        self.line = None
        self.params = []
        self.used = []
        self.reserved = {}
        self.consts = []
        self.posonly = self.kwonly = self.argc = 0
        self.flags = 0
        self.isgen = False
        self.qual = qual or name
        self.tmp = 0
        self.optimized = kind in ("function", "comp")
        self.names = []
        syms = {s.get_name(): s for s in table.get_symbols()} if table is not None else {}
        self.syms = syms
        self.cellvars, self.freevars, self.locals, self.passed = [], [], [], []
        for n, s in syms.items():
            if self.kind == "module":
                continue
            if s.is_free() or (s.is_nonlocal()):
                self.freevars.append(n)
            elif self.optimized and s.is_local() and self._child_needs(n):
                self.cellvars.append(n)
            elif self.kind == "class" and n != "__class__" and s.is_local() and self._child_needs(n, True):
                # a name of the class, and the enclosing function's for a method
                self.passed.append(n)
                self.freevars.append(n)
        if self.kind == "class" and self._child_needs("__class__") and "__class__" not in self.cellvars:
            self.cellvars.append("__class__")
        self.cellvars.sort()
        self.freevars.sort()

    def _child_needs(self, n, passing=False):
        def rec(t):
            for c in t.get_children():
                s = {x.get_name(): x for x in c.get_symbols()}
                if n in s and s[n].is_free():
                    return True
                if c.get_type() == "class" and rec(c):
                    return True
            return False
        if self.kind == "class" and n != "__class__" and not passing:
            return False
        return rec(self.t)

    # ------------------------------------------------------------ emission
    def e(self, op, arg=None):
        self.out.append((op, arg) if arg is not None else (op,))

    def new(self):
        root = self
        root.nl += 1
        return "L%d" % root.nl

    def lab(self, l):
        self.out.append(("label", l))

    def setline(self, node):
        ln = getattr(node, "lineno", None)
        if ln is not None and ln != self.line:
            self.line = ln
            self.out.append(("line", ln))

    def ge(self, *t):
        return self.v >= t

    @property
    def fam(self):
        if self.v < (3, 8):
            return "A"
        if self.v < (3, 9):
            return "B"
        if self.v < (3, 11):
            return "C"
        return "D"

    # ------------------------------------------------------------ names
    def scope(self, n):
        if n in self.cellvars:
            return "cell"
        if n in self.freevars and n not in self.passed:
            return "free"
        if self.kind == "module":
            return "name"
        s = self.syms.get(n)
        if self.kind == "class":
            if s is not None and s.is_declared_global():
                return "global"
            return "name"
        if n.startswith("_["):
            return "fast"
        if s is None or s.is_global():
            return "global"
        return "fast"

    def load(self, n, null=False):
        if n in ("None", "True", "False") and self.ge(3, 4):
            return self.const({"None": None, "True": True, "False": False}[n])
        sc = self.scope(n)
        if sc == "fast":
            self.e("LOAD_FAST", V(n))
        elif sc == "global":
            self.e("LOAD_GLOBAL", N(n))
        elif sc == "name":
            self.e("LOAD_NAME", N(n))
        elif self.kind == "class" and sc == "free" and self.ge(3, 4):
            self.e("LOAD_CLASSDEREF", D(n))
        else:
            self.e("LOAD_DEREF", D(n))

    def store(self, n):
        sc = self.scope(n)
        self.e(*{"fast": ("STORE_FAST", V(n)), "global": ("STORE_GLOBAL", N(n)), "name": ("STORE_NAME", N(n)),
                 "cell": ("STORE_DEREF", D(n)), "free": ("STORE_DEREF", D(n))}[sc])

    def delete(self, n):
        sc = self.scope(n)
        if sc in ("cell", "free"):
            if not self.v.has("DELETE_DEREF"):
                raise Unsupported("del of a cell")
            return self.e("DELETE_DEREF", D(n))
        self.e(*{"fast": ("DELETE_FAST", V(n)), "global": ("DELETE_GLOBAL", N(n)), "name": ("DELETE_NAME", N(n))}[sc])

    def const(self, c):
        if self.v < (3, 0) and (c is True or c is False):
            return self.e("LOAD_NAME" if self.kind in ("module", "class") else "LOAD_GLOBAL", N(str(c)))
        self.e("LOAD_CONST", K(c))

    # ------------------------------------------------------------ jumps
    def jump_false(self, l):
        self._pj("FALSE", l)

    def jump_true(self, l):
        self._pj("TRUE", l)

    def _pj(self, what, l, back=False):
        if self.v.has("POP_JUMP_IF_" + what) and not (self.ge(3, 11) and not self.ge(3, 12)):
            self.e("POP_JUMP_IF_" + what, Label(l))
        elif self.v.has("POP_JUMP_FORWARD_IF_" + what):
            self.e("POP_JUMP_%s_IF_%s" % ("BACKWARD" if back else "FORWARD", what), Label(l))
        else:
            # JUMP_IF keeps the value: pop it on both ways
            over = self.new()
            tramp = self.new()
            self.e("JUMP_IF_" + what, Label(tramp))
            self.e("POP_TOP")
            self.e("JUMP_FORWARD", Label(over))
            self.lab(tramp)
            self.e("POP_TOP")
            self.e("JUMP_FORWARD", Label(l))
            self.lab(over)

    def jump_keep(self, what, l):
        """JUMP_IF_x_OR_POP"""
        if self.v.has("JUMP_IF_%s_OR_POP" % what):
            self.e("JUMP_IF_%s_OR_POP" % what, Label(l))
        else:
            self.e("JUMP_IF_" + what, Label(l))
            self.e("POP_TOP")

    def jump(self, l, back=False):
        if back and self.ge(3, 11):
            self.e("JUMP_BACKWARD", Label(l))
        elif back:
            self.e("JUMP_ABSOLUTE", Label(l))
        else:
            self.e("JUMP_FORWARD", Label(l))

    # ------------------------------------------------------------ expressions
    def x(self, node):
        if getattr(node, "lineno", None) is not None:
            self.setline(node)
        getattr(self, "x_" + type(node).__name__, self.unsupported)(node)

    def x_Name(self, n):
        self.load(n.id)

    def x_Constant(self, n):
        self.const(n.value)

    def x_BinOp(self, n):
        self.x(n.left)
        self.x(n.right)
        self.binop(n.op, False)

    def binop(self, op, inplace):
        name = BINOPS[type(op)]
        if name == "TRUE_DIVIDE" and self.v < (3, 0):
            name = "DIVIDE"
        if self.ge(3, 11):
            self.e("BINARY_OP", NBOPS.index(name) + (13 if inplace else 0))
        else:
            o = ("INPLACE_" if inplace else "BINARY_") + name
            if not self.v.has(o):
                raise Unsupported(o)
            self.e(o)

    def x_UnaryOp(self, n):
        self.x(n.operand)
        self.e({"Not": "UNARY_NOT", "USub": "UNARY_NEGATIVE", "UAdd": "UNARY_POSITIVE",
                "Invert": "UNARY_INVERT"}[type(n.op).__name__])

    def x_BoolOp(self, n):
        end = self.new()
        what = "FALSE" if isinstance(n.op, ast.And) else "TRUE"
        for v in n.values[:-1]:
            self.x(v)
            self.jump_keep(what, end)
        self.x(n.values[-1])
        self.lab(end)

    def x_IfExp(self, n):
        a, b = self.new(), self.new()
        self.cond(n.test, a)
        self.x(n.body)
        self.jump(b)
        self.lab(a)
        self.x(n.orelse)
        self.lab(b)

    def cmp(self, op):
        name = CMPOPS[type(op)]
        if name in ("is", "is not") and self.v.has("IS_OP"):
            return self.e("IS_OP", int(name != "is"))
        if name in ("in", "not in") and self.v.has("CONTAINS_OP"):
            return self.e("CONTAINS_OP", int(name != "in"))
        k = CMPNAMES.index(name)
        self.e("COMPARE_OP", k << 4 if self.ge(3, 12) else k)

    def x_Compare(self, n):
        self.x(n.left)
        if len(n.ops) == 1:
            self.x(n.comparators[0])
            return self.cmp(n.ops[0])
        clean, end = self.new(), self.new()
        for op, c in list(zip(n.ops, n.comparators))[:-1]:
            self.x(c)
            self.dup()
            self.rot3()
            self.cmp(op)
            self.jump_keep("FALSE", clean)
        self.x(n.comparators[-1])
        self.cmp(n.ops[-1])
        self.jump(end)
        self.lab(clean)
        self.rot2()
        self.e("POP_TOP")
        self.lab(end)

    def dup(self):
        if self.ge(3, 11):
            self.e("COPY", 1)
        else:
            self.e("DUP_TOP")

    def rot2(self):
        if self.ge(3, 11):
            self.e("SWAP", 2)
        else:
            self.e("ROT_TWO")

    def rot3(self):
        if self.ge(3, 11):
            self.e("SWAP", 3)
            self.e("SWAP", 2)
        else:
            self.e("ROT_THREE")

    def rot4(self):
        if self.ge(3, 11):
            self.e("SWAP", 4)
            self.e("SWAP", 3)
            self.e("SWAP", 2)
        elif not self.v.has("ROT_FOUR"):
            raise Unsupported("ROT_FOUR is unknown to xdis for " + self.v.name)
        else:
            self.e("ROT_FOUR")

    def x_Attribute(self, n):
        self.x(n.value)
        self.e("LOAD_ATTR", N(n.attr))

    def slice_(self, s):
        for p in (s.lower, s.upper):
            if p is None:
                self.const(None)
            else:
                self.x(p)
        if s.step is not None:
            self.x(s.step)
        self.e("BUILD_SLICE", 2 if s.step is None else 3)

    def subscr(self, n, what):
        """what: BINARY_SUBSCR / STORE_SUBSCR / DELETE_SUBSCR; value below for store."""
        self.x(n.value)
        s = n.slice
        if isinstance(s, ast.Slice) and s.step is None and self.v < (3, 0):
            k = (1 if s.lower else 0) + (2 if s.upper else 0)
            if s.lower:
                self.x(s.lower)
            if s.upper:
                self.x(s.upper)
            self.e({"BINARY_SUBSCR": "SLICE", "STORE_SUBSCR": "STORE_SLICE",
                    "DELETE_SUBSCR": "DELETE_SLICE"}[what] + "_%d" % k)
            return
        if isinstance(s, ast.Slice):
            self.slice_(s)
        else:
            self.x(s)
        self.e(what)

    def x_Subscript(self, n):
        self.subscr(n, "BINARY_SUBSCR")

    def x_Slice(self, n):
        self.slice_(n)

    def seq(self, n, op):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self.starseq(n.elts, op)
        for e in n.elts:
            self.x(e)
        self.e("BUILD_" + op, len(n.elts))

    def starseq(self, elts, op):
        if self.v < (3, 5):
            raise Unsupported("starred display")
        if self.ge(3, 9):
            kind = "SET" if op == "SET" else "LIST"
            n0 = 0
            for e in elts:
                if isinstance(e, ast.Starred):
                    break
                self.x(e)
                n0 += 1
            self.e("BUILD_" + kind, n0)
            for e in elts[n0:]:
                if isinstance(e, ast.Starred):
                    self.x(e.value)
                    self.e("SET_UPDATE" if kind == "SET" else "LIST_EXTEND", 1)
                else:
                    self.x(e)
                    self.e("SET_ADD" if kind == "SET" else "LIST_APPEND", 1)
            if op == "TUPLE":
                self.tolist()
            return
        groups = 0
        k = 0
        for e in elts:
            if isinstance(e, ast.Starred):
                if k:
                    self.e("BUILD_SET" if op == "SET" else "BUILD_TUPLE", k)
                    groups += 1
                    k = 0
                self.x(e.value)
                groups += 1
            else:
                self.x(e)
                k += 1
        if k:
            self.e("BUILD_SET" if op == "SET" else "BUILD_TUPLE", k)
            groups += 1
        self.e("BUILD_%s_UNPACK" % op, groups)

    def tolist(self):
        if self.ge(3, 12):
            self.e("CALL_INTRINSIC_1", 6)
        else:
            self.e("LIST_TO_TUPLE")

    def x_Tuple(self, n):
        self.seq(n, "TUPLE")

    def x_List(self, n):
        self.seq(n, "LIST")

    def x_Set(self, n):
        if self.v < (2, 7):
            raise Unsupported("set display")
        self.seq(n, "SET")

    def x_Dict(self, n):
        if any(k is None for k in n.keys):
            return self.stardict(n)
        if self.v < (3, 5):
            self.e("BUILD_MAP", min(len(n.keys), 255) if self.ge(2, 6) else 0)
            for k, v in zip(n.keys, n.values):
                if not self.ge(2, 5):
                    self.e("DUP_TOP")
                    self.x(k)
                    self.x(v)
                    self.e("ROT_THREE")
                    self.e("STORE_SUBSCR")
                elif not self.ge(2, 6):
                    self.e("DUP_TOP")
                    self.x(v)
                    self.e("ROT_TWO")
                    self.x(k)
                    self.e("STORE_SUBSCR")
                else:
                    self.x(v)
                    self.x(k)
                    self.e("STORE_MAP")
            return
        for k, v in zip(n.keys, n.values):
            self.x(k)
            self.x(v)
        self.e("BUILD_MAP", len(n.keys))

    def stardict(self, n):
        if self.v < (3, 5):
            raise Unsupported("** display")
        if self.ge(3, 9):
            k = 0
            have = False
            for key, val in zip(n.keys, n.values):
                if key is None:
                    if k:
                        self.e("BUILD_MAP", k)
                        if have:
                            self.e("DICT_UPDATE", 1)
                        have, k = True, 0
                    if not have:
                        self.e("BUILD_MAP", 0)
                        have = True
                    self.x(val)
                    self.e("DICT_UPDATE", 1)
                else:
                    self.x(key)
                    self.x(val)
                    k += 1
            if k:
                self.e("BUILD_MAP", k)
                self.e("DICT_UPDATE", 1)
            return
        groups, k = 0, 0
        for key, val in zip(n.keys, n.values):
            if key is None:
                if k:
                    self.e("BUILD_MAP", k)
                    groups += 1
                    k = 0
                self.x(val)
                groups += 1
            else:
                self.x(key)
                self.x(val)
                k += 1
        if k:
            self.e("BUILD_MAP", k)
            groups += 1
        self.e("BUILD_MAP_UNPACK", groups)

    def x_JoinedStr(self, n):
        if self.v < (3, 6):
            raise Unsupported("f-string")
        for v in n.values:
            self.x(v)
        if len(n.values) != 1:
            self.e("BUILD_STRING", len(n.values))

    def x_FormattedValue(self, n):
        self.x(n.value)
        fl = {-1: 0, 115: 1, 114: 2, 97: 3}[n.conversion]
        if n.format_spec is not None:
            self.x(n.format_spec)
            fl |= 4
        self.e("FORMAT_VALUE", fl)

    # ------------------------------------------------------------ calls
    def x_Call(self, n):
        stars = any(isinstance(a, ast.Starred) for a in n.args)
        dstars = any(k.arg is None for k in n.keywords)
        meth = (isinstance(n.func, ast.Attribute) and not stars and not dstars and not n.keywords)
        if meth and (self.v.pypy or self.ge(3, 7)) and not (self.v.pypy and self.v < (3, 5) and False):
            lookup = "LOOKUP_METHOD" if self.v.has("LOOKUP_METHOD") else "LOAD_METHOD"
            if self.v.has(lookup) and self.v.has("CALL_METHOD"):
                self.x(n.func.value)
                self.e(lookup, N(n.func.attr))
                for a in n.args:
                    self.x(a)
                return self.e("CALL_METHOD", len(n.args))
            if self.ge(3, 11):
                self.x(n.func.value)
                self.e("LOAD_METHOD", N(n.func.attr))
                for a in n.args:
                    self.x(a)
                return self.call11(len(n.args))
        if self.ge(3, 11):
            self.e("PUSH_NULL")
        self.x(n.func)
        self.args(n.args, n.keywords)

    def call11(self, k, kw=()):
        if kw:
            self.e("KW_NAMES", K(tuple(kw)))
        if self.v.has("PRECALL"):
            self.e("PRECALL", k)
        self.e("CALL", k)

    def call(self, k):
        """Positional call of what is on the stack (3.11: NULL below the callable)."""
        if self.ge(3, 11):
            self.call11(k)
        else:
            self.e("CALL_FUNCTION", k)

    def args(self, args, keywords, pre=0):
        """pre: number of positional arguments already pushed"""
        stars = [a for a in args if isinstance(a, ast.Starred)]
        dstars = [k for k in keywords if k.arg is None]
        if not stars and not dstars:
            for a in args:
                self.x(a)
            n = len(args) + pre
            if not keywords:
                return self.call(n)
            if self.v < (3, 6) or (self.v.pypy and self.v < (3, 7)):
                for k in keywords:
                    self.const(k.arg)
                    self.x(k.value)
                return self.e("CALL_FUNCTION", n + 256 * len(keywords))
            for k in keywords:
                self.x(k.value)
            names = tuple(k.arg for k in keywords)
            if self.ge(3, 11):
                return self.call11(n + len(names), names)
            self.const(names)
            return self.e("CALL_FUNCTION_KW", n + len(names))
        if self.v < (3, 6) or (self.v.pypy and self.v < (3, 7)):
            return self.args_old(args, keywords, pre, stars, dstars)
        # CALL_FUNCTION_EX
        if self.ge(3, 9):
            if len(args) == 1 and stars and not pre:
                self.x(args[0].value)
            else:
                self.starpos(args, pre)
            if keywords:
                self.kwmerge(keywords)
            self.e("CALL_FUNCTION_EX", 1 if keywords else 0)
            return
        groups, k = 0, pre
        for a in args:
            if isinstance(a, ast.Starred):
                if k:
                    self.e("BUILD_TUPLE", k)
                    groups += 1
                    k = 0
                self.x(a.value)
                groups += 1
            else:
                self.x(a)
                k += 1
        if k or not groups:
            self.e("BUILD_TUPLE", k)
            groups += 1
        if groups > 1:
            self.e("BUILD_TUPLE_UNPACK" if self.v.pypy else "BUILD_TUPLE_UNPACK_WITH_CALL", groups)
        if keywords:
            ng = self.kwgroups(keywords)
            if ng > 1:
                self.e("BUILD_MAP_UNPACK_WITH_CALL", ng)
        self.e("CALL_FUNCTION_EX", 1 if keywords else 0)

    def kwgroups(self, keywords):
        ng, pend = 0, []

        def flush():
            nonlocal ng
            if pend:
                for p in pend:
                    self.const(p.arg)
                    self.x(p.value)
                self.e("BUILD_MAP", len(pend))
                ng += 1
                pend.clear()
        for k in keywords:
            if k.arg is None:
                flush()
                self.x(k.value)
                ng += 1
            else:
                pend.append(k)
        flush()
        return ng

    def starpos(self, args, pre):
        n0 = pre
        i = 0
        for a in args:
            if isinstance(a, ast.Starred):
                break
            self.x(a)
            n0 += 1
            i += 1
        if i == len(args):
            self.e("BUILD_TUPLE", n0)
            return
        self.e("BUILD_LIST", n0)
        for a in args[i:]:
            if isinstance(a, ast.Starred):
                self.x(a.value)
                self.e("LIST_EXTEND", 1)
            else:
                self.x(a)
                self.e("LIST_APPEND", 1)
        self.tolist()

    def kwmerge(self, keywords):
        pend, have = [], False
        for k in list(keywords) + [None]:
            if k is not None and k.arg is not None:
                pend.append(k)
                continue
            if pend:
                for p in pend:
                    self.const(p.arg)
                    self.x(p.value)
                self.e("BUILD_MAP", len(pend))
                if have:
                    self.e("DICT_MERGE", 1)
                have = True
                pend = []
            if k is not None:
                if not have:
                    self.e("BUILD_MAP", 0)
                    have = True
                self.x(k.value)
                self.e("DICT_MERGE", 1)

    def args_old(self, args, keywords, pre, stars, dstars):
        if self.v < (3, 5) and (len(stars) > 1 or len(dstars) > 1 or (stars and args[-1] is not stars[0])):
            raise Unsupported("several * or ** arguments")
        npos = pre
        if self.ge(3, 5):
            i = 0
            for a in args:
                if isinstance(a, ast.Starred):
                    break
                self.x(a)
                npos += 1
                i += 1
            groups, k = 0, 0
            for a in args[i:]:
                if isinstance(a, ast.Starred):
                    if k:
                        self.e("BUILD_TUPLE", k)
                        groups += 1
                        k = 0
                    self.x(a.value)
                    groups += 1
                else:
                    self.x(a)
                    k += 1
            if k:
                self.e("BUILD_TUPLE", k)
                groups += 1
            if groups > 1:
                self.e("BUILD_LIST_UNPACK", groups)
        else:
            for a in args:
                if not isinstance(a, ast.Starred):
                    self.x(a)
                    npos += 1
        if self.ge(3, 5):
            # a run of plain keywords before the first ** goes as pairs; the rest as mappings
            kws = []
            rest = list(keywords)
            while rest and rest[0].arg is not None:
                kws.append(rest.pop(0))
            for k in kws:
                self.const(k.arg)
                self.x(k.value)
            ng = self.kwgroups(rest) if rest else 0
            if ng > 1:
                self.e("BUILD_MAP_UNPACK_WITH_CALL",
                       ng + 256 * (1 + npos + 2 * len(kws) + (1 if stars else 0)))
        else:
            kws = [k for k in keywords if k.arg is not None]
            for k in kws:
                self.const(k.arg)
                self.x(k.value)
            if stars:
                self.x(stars[0].value)
            if dstars:
                self.x(dstars[0].value)
        op = "CALL_FUNCTION" + ("_VAR" if stars else "") + ("_KW" if dstars else "")
        self.e(op, npos + 256 * len(kws))

    # ------------------------------------------------------------ functions
    def child(self, name, lineno, node=None):
        if id(node) in self.reserved:       # compiled once more (a finally clause)
            return self.reserved[id(node)]
        for i, c in enumerate(self.t.get_children()):
            if c.get_name() == name and i not in self.used:
                self.used.append(i)
                if node is not None:
                    self.reserved[id(node)] = c
                return c
        raise KeyError(name)

    def comp_child(self, n):
        """The table of the comprehension n: those in its first iterable, which
        belong to this scope too, come before it."""
        if id(n) in self.reserved:
            return self.reserved[id(n)]

        def walk(x):
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                if isinstance(x, ast.ListComp) and self.v < (3, 0):
                    for y in ast.iter_child_nodes(x):
                        walk(y)
                else:
                    self.comp_child(x)
            elif not isinstance(x, ast.Lambda):
                for y in ast.iter_child_nodes(x):
                    walk(y)
        walk(n.generators[0].iter)
        t = self.reserved[id(n)] = self.child("genexpr", n.lineno)
        return t

    def closure_of(self, sub):
        """push the closure tuple; returns True if there is one"""
        if not sub.freevars:
            return False
        for n in sub.freevars:
            self.e("LOAD_CLOSURE", D(n))
        if self.v < (2, 5):
            return True
        self.e("BUILD_TUPLE", len(sub.freevars))
        return True

    def make_fn(self, sub, code, ndef=0, kwd=(), ann=(), qual=None):
        """defaults etc. have been pushed by the caller in version order up to the closure"""
        raise NotImplementedError

    def function(self, name, qual, args, emit_body, table, node, returns=None, kind="function"):
        v = self.v
        sub = Comp(v, table, name, kind, self, self.filename, qual)
        sub.setup_args(args)
        sub.firstline = node.lineno
        old36 = v < (3, 6) or (v.pypy and v < (3, 6))
        pos = args.posonlyargs + args.args if args else []
        if args and args.posonlyargs and v < (3, 8):
            raise Unsupported("positional-only")
        if args and args.kwonlyargs and v < (3, 0):
            raise Unsupported("keyword-only")
        anns = []
        if args:
            allargs = pos + ([args.vararg] if args.vararg else []) + args.kwonlyargs + (
                [args.kwarg] if args.kwarg else [])
            if v < (3, 6):
                allargs = pos + ([args.vararg] if args.vararg else []) + args.kwonlyargs + (
                    [args.kwarg] if args.kwarg else [])
            anns = [(a.arg, a.annotation) for a in allargs if a.annotation is not None]
            if returns is not None:
                anns.append(("return", returns))
        if anns and v < (3, 0):
            raise Unsupported("annotations")
        defaults = args.defaults if args else []
        kwd = [(a.arg, d) for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None] if args else []
        flag = 0

        def push_defaults():
            for d in defaults:
                self.x(d)

        def push_kwpairs():
            for n, d in kwd:
                self.const(n)
                self.x(d)

        def push_ann_old():
            if anns:
                for n, a in anns:
                    self.x(a)
                self.const(tuple(n for n, a in anns))
        if v < (3, 6):
            # keyword-only defaults came first until 3.4a1 (magic 3250)
            if v < (3, 4):
                push_kwpairs()
                push_defaults()
            else:
                push_defaults()
                push_kwpairs()
            push_ann_old()
            nann = (len(anns) + 1) if anns else 0
            argc = len(defaults) | len(kwd) << 8 | nann << 16
            emit_body(sub)
            code = sub.finish()
            clo = self.closure_of(sub)
            self.const(code)
            if v >= (3, 3):
                self.const(qual)
            self.e("MAKE_CLOSURE" if clo else "MAKE_FUNCTION", argc)
            return sub
        if defaults:
            flag |= 1
            push_defaults()
            self.e("BUILD_TUPLE", len(defaults))
        if kwd:
            flag |= 2
            for n, d in kwd:
                self.x(d)
            self.const(tuple(n for n, d in kwd))
            self.e("BUILD_CONST_KEY_MAP", len(kwd))
        if anns:
            flag |= 4
            if v >= (3, 10):
                for n, a in anns:
                    self.const(n)
                    self.x(a)
                self.e("BUILD_TUPLE", 2 * len(anns))
            else:
                for n, a in anns:
                    self.x(a)
                self.const(tuple(n for n, a in anns))
                self.e("BUILD_CONST_KEY_MAP", len(anns))
        emit_body(sub)
        code = sub.finish()
        if self.closure_of(sub):
            flag |= 8
        self.const(code)
        if v < (3, 11):
            self.const(qual)
        self.e("MAKE_FUNCTION", flag)
        return sub

    def setup_args(self, args):
        self.flags = 3
        if self.parent is not None and self.parent.kind in ("function", "comp"):
            self.flags |= 16
        if args is None:
            return
        names = [a.arg for a in args.posonlyargs + args.args]
        self.argc = len(names)
        self.posonly = len(args.posonlyargs)
        self.kwonly = len(args.kwonlyargs)
        names += [a.arg for a in args.kwonlyargs]
        if args.vararg:
            names.append(args.vararg.arg)
            self.flags |= 4
        if args.kwarg:
            names.append(args.kwarg.arg)
            self.flags |= 8
        self.params = names

    def prologue(self):
        pass

    def finish(self):
        v = self.v
        if self.isgen:
            self.flags |= 32
        if not self.freevars and not self.cellvars:
            self.flags |= 64
        pre = []
        if v >= (3, 11):
            if self.freevars:
                pre.append(("COPY_FREE_VARS", len(self.freevars)))
            for c in self.cellvars:
                pre.append(("MAKE_CELL", D(c)))
            if self.isgen:
                pre += [("RETURN_GENERATOR",), ("POP_TOP",)]
            pre.append(("RESUME", 0))
        elif v >= (3, 10) and self.isgen:
            pre.append(("GEN_START", 0))
        varnames = list(self.params)
        code = asm.make(v, pre + self.out, doc=getattr(self, "doc", None), varnames=varnames, cellvars=list(self.cellvars),
                        freevars=list(self.freevars), argcount=self.argc, posonly=self.posonly, kwonly=self.kwonly,
                        flags=self.flags, name=self.name, firstlineno=getattr(self, "firstline", 1), exc=self.exc,
                        filename=self.filename, qualname=self.qual)
        return code

    def subqual(self, name):
        if self.kind == "module":
            return name
        if self.kind == "class":
            return self.qual + "." + name
        return self.qual + ".<locals>." + name

    def unsupported(self, n):
        raise Unsupported(type(n).__name__)

    def x_Lambda(self, n):
        t = self.child("lambda", n.lineno, n)

        def body(sub):
            sub.x(n.body)
            if sub.isgen:
                raise Unsupported("yield in lambda")
            sub.e("RETURN_VALUE")
        self.function("<lambda>", self.subqual("<lambda>"), n.args, body, t, n)

    def s_FunctionDef(self, n):
        if n.type_params:
            raise Unsupported("type parameters")
        for d in n.decorator_list:
            self.x(d)
        t = self.child(n.name, n.lineno, n)

        def body(sub):
            sub.isgen = any_yield(n)
            sub.doc = ast.get_docstring(n, clean=False)
            sub.body(n.body)
        self.function(n.name, self.subqual(n.name), n.args, body, t, n, n.returns)
        for d in n.decorator_list:
            # 3.11: the decorator sits where a NULL-less callable goes
            self.call(0 if self.ge(3, 11) else 1)
        self.store(n.name)

    def annotations_head(self, stmts):
        def found(body):
            return any(isinstance(s, ast.AnnAssign) or not isinstance(s, (ast.FunctionDef, ast.ClassDef)) and any(
                found(getattr(s, f, [])) for f in ("body", "orelse", "finalbody")) or any(
                found(h.body) for h in getattr(s, "handlers", [])) for s in body)
        if found(stmts):
            if self.v < (3, 6):
                raise Unsupported("variable annotation")
            self.e("SETUP_ANNOTATIONS")

    def s_AnnAssign(self, n):
        if self.v < (3, 6) or not isinstance(n.target, ast.Name):
            raise Unsupported("annotation")
        if n.value is not None:
            self.x(n.value)
            self.store(n.target.id)
        if n.simple and self.kind in ("class", "module"):
            self.x(n.annotation)
            if self.v < (3, 7):
                self.e("STORE_ANNOTATION", N(n.target.id))
            else:
                self.load("__annotations__")
                self.const(n.target.id)
                self.e("STORE_SUBSCR")

    def body(self, stmts):
        if self.kind == "module":
            self.annotations_head(stmts)
        for s in stmts:
            self.s(s)
        self.const(None)
        self.e("RETURN_VALUE")

    # comprehensions
    def comp(self, n, what):
        names = {"list": "listcomp", "set": "setcomp", "dict": "dictcomp", "gen": "genexpr"}
        v = self.v
        if what == "list" and v < (3, 0):
            return self.listcomp2(n)
        if what in ("set", "dict") and v < (2, 7):
            raise Unsupported(what + " comprehension")
        t = self.comp_child(n)
        nm = "<%s>" % names[what]
        sub_args = ast.arguments(posonlyargs=[], args=[ast.arg(arg=".0")], vararg=None, kwonlyargs=[],
                                 kw_defaults=[], kwarg=None, defaults=[])

        def body(sub):
            if what == "gen":
                sub.isgen = True
            else:
                sub.e({"list": "BUILD_LIST", "set": "BUILD_SET", "dict": "BUILD_MAP"}[what], 0)
            sub.compgen(n, 0, what)
            if what == "gen":
                sub.const(None)
            sub.e("RETURN_VALUE")
        self.function(nm, self.subqual(nm), sub_args, body, t, n, kind="comp")
        self.x(n.generators[0].iter)
        self.e("GET_ITER")
        if v >= (3, 11):
            self.call11(0)
        else:
            self.e("CALL_FUNCTION", 1)

    def compgen(self, n, i, what):
        g = n.generators[i]
        top, skip, end = self.new(), self.new(), self.new()
        if i == 0:
            self.e("LOAD_FAST", V(".0"))
        else:
            self.x(g.iter)
            self.e("GET_ITER")
        loop = self.v < (3, 0) and what == "gen"
        if loop:
            self.e("SETUP_LOOP", Label(end))
        self.lab(top)
        anchor = self.new()
        self.e("FOR_ITER", Label(anchor))
        self.assign(g.target)
        for c in g.ifs:
            self.x(c)
            self.jump_false(skip)
        if i + 1 < len(n.generators):
            self.compgen(n, i + 1, what)
        else:
            depth = len(n.generators) + 1
            if what == "gen":
                self.x(n.elt)
                self.yield_()
                self.e("POP_TOP")
            elif what == "dict":
                if self.v >= (3, 8):
                    self.x(n.key)
                    self.x(n.value)
                else:
                    self.x(n.value)
                    self.x(n.key)
                self.e("MAP_ADD", depth)
            else:
                self.x(n.elt)
                if self.v < (3, 1) and self.v < (2, 7):
                    raise Unsupported("old comprehension")
                self.e("LIST_APPEND" if what == "list" else "SET_ADD", depth)
        self.lab(skip)
        self.jump(top, back=True)
        self.lab(anchor)
        if loop:
            self.e("POP_BLOCK")
        self.lab(end)

    def listcomp2(self, n):
        v = self.v
        self.tmp += 1
        tmp = "_[%d]" % self.tmp
        self.e("BUILD_LIST", 0)
        if v < (2, 7):
            self.dup()
            self.store(tmp)
        gens = n.generators

        def rec(i):
            g = gens[i]
            top, skip, end = self.new(), self.new(), self.new()
            self.x(g.iter)
            self.e("GET_ITER")
            self.lab(top)
            self.e("FOR_ITER", Label(end))
            self.assign(g.target)
            for c in g.ifs:
                self.x(c)
                self.jump_false(skip)
            if i + 1 < len(gens):
                rec(i + 1)
            elif v < (2, 7):
                self.load(tmp)
                self.x(n.elt)
                self.e("LIST_APPEND")
            else:
                self.x(n.elt)
                self.e("LIST_APPEND", len(gens) + 1)
            self.lab(skip)
            self.jump(top, back=True)
            self.lab(end)
        rec(0)
        if v < (2, 7):
            self.delete(tmp)

    def x_ListComp(self, n):
        self.comp(n, "list")

    def x_SetComp(self, n):
        self.comp(n, "set")

    def x_DictComp(self, n):
        self.comp(n, "dict")

    def x_GeneratorExp(self, n):
        self.comp(n, "gen")

    def yield_(self):
        if self.v < (2, 5):
            self.e("YIELD_VALUE")
            self.const(None)   # 2.4: yield is a statement
            return
        self.e("YIELD_VALUE")
        if self.v >= (3, 11):
            self.e("RESUME", 1)

    def x_Yield(self, n):
        if n.value is None:
            self.const(None)
        else:
            self.x(n.value)
        self.yield_()

    def x_YieldFrom(self, n):
        if self.v < (3, 3):
            raise Unsupported("yield from")
        self.x(n.value)
        self.e("GET_YIELD_FROM_ITER" if self.v >= (3, 5) else "GET_ITER")
        self.const(None)
        if self.v >= (3, 11):
            l, fail, = self.new(), self.new()
            self.lab(l)
            self.e("SEND", Label(fail))
            self.e("YIELD_VALUE")
            self.e("RESUME", 2)
            self.e("JUMP_BACKWARD_NO_INTERRUPT", Label(l))
            self.lab(fail)
        else:
            self.e("YIELD_FROM")

    def x_Starred(self, n):
        raise Unsupported("starred")

    # ------------------------------------------------------------ statements
    def s(self, node):
        self.setline(node)
        getattr(self, "s_" + type(node).__name__, self.unsupported)(node)

    def s_Pass(self, n):
        if self.v >= (3, 8):
            self.e("NOP")

    def s_Expr(self, n):
        call = n.value
        if self.v < (3, 0) and isinstance(call, ast.Call) and isinstance(call.func, ast.Name) and call.func.id == "exec":
            # exec(a), exec(a, b) and exec(a, b, c) are the statement
            if call.keywords or not 1 <= len(call.args) <= 3 or any(isinstance(a, ast.Starred) for a in call.args):
                raise Unsupported("exec")
            for a in call.args:
                self.x(a)
            if len(call.args) == 1:
                self.const(None)
            if len(call.args) < 3:
                self.e("DUP_TOP")
            self.e("EXEC_STMT")
            return
        self.x(n.value)
        self.e("POP_TOP")

    def s_Global(self, n):
        pass

    s_Nonlocal = s_Global

    def assign(self, t):
        if isinstance(t, ast.Name):
            self.store(t.id)
        elif isinstance(t, ast.Attribute):
            self.x(t.value)
            self.e("STORE_ATTR", N(t.attr))
        elif isinstance(t, ast.Subscript):
            self.subscr(t, "STORE_SUBSCR")
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                if self.v < (3, 0):
                    raise Unsupported("starred target")
                i = star[0]
                self.e("UNPACK_EX", i | (len(t.elts) - i - 1) << 8)
            else:
                self.e("UNPACK_SEQUENCE", len(t.elts))
            for e in t.elts:
                self.assign(e.value if isinstance(e, ast.Starred) else e)
        else:
            raise Unsupported(type(t).__name__)

    def s_Assign(self, n):
        self.x(n.value)
        for t in n.targets[:-1]:
            self.dup()
            self.assign(t)
        self.assign(n.targets[-1])

    def s_AugAssign(self, n):
        t = n.target
        if isinstance(t, ast.Name):
            self.load(t.id)
            self.x(n.value)
            self.binop(n.op, True)
            self.store(t.id)
        elif isinstance(t, ast.Attribute):
            self.x(t.value)
            self.dup()
            self.e("LOAD_ATTR", N(t.attr))
            self.x(n.value)
            self.binop(n.op, True)
            self.rot2()
            self.e("STORE_ATTR", N(t.attr))
        else:
            self.x(t.value)
            if isinstance(t.slice, ast.Slice):
                raise Unsupported("augmented slice")
            self.x(t.slice)
            if self.v >= (3, 11):
                self.e("COPY", 2)
                self.e("COPY", 2)
            elif self.v.has("DUP_TOP_TWO"):
                self.e("DUP_TOP_TWO")
            else:
                self.e("DUP_TOPX", 2)
            self.e("BINARY_SUBSCR")
            self.x(n.value)
            self.binop(n.op, True)
            self.rot3()
            self.e("STORE_SUBSCR")

    def s_Delete(self, n):
        for t in n.targets:
            if isinstance(t, ast.Name):
                self.delete(t.id)
            elif isinstance(t, ast.Attribute):
                self.x(t.value)
                self.e("DELETE_ATTR", N(t.attr))
            else:
                self.subscr(t, "DELETE_SUBSCR")

    def s_If(self, n):
        a, b = self.new(), self.new()
        self.cond(n.test, a)
        for s in n.body:
            self.s(s)
        if n.orelse:
            self.jump(b)
        self.lab(a)
        for s in n.orelse:
            self.s(s)
        self.lab(b)

    def cond(self, test, l):
        """jump to l when false"""
        self.jump_if(test, l, False)

    def jump_if(self, test, l, sense, back=False):
        """jump to l when the truth of test is `sense`, testing each operand once"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.jump_if(test.operand, l, not sense, back)
        if isinstance(test, ast.BoolOp):
            isor = isinstance(test.op, ast.Or)
            if isor == sense:
                for v in test.values:
                    self.jump_if(v, l, sense, back)
            else:
                nxt = self.new()
                for v in test.values[:-1]:
                    self.jump_if(v, nxt, isor)
                self.jump_if(test.values[-1], l, sense, back)
                self.lab(nxt)
            return
        if (self.v >= (3, 11) and isinstance(test, ast.Compare) and len(test.ops) == 1
                and isinstance(test.ops[0], (ast.Is, ast.IsNot)) and isinstance(test.comparators[0], ast.Constant)
                and test.comparators[0].value is None):
            self.x(test.left)
            w = "NONE" if isinstance(test.ops[0], ast.Is) == sense else "NOT_NONE"
            if self.v >= (3, 12):
                return self.e("POP_JUMP_IF_" + w, Label(l))
            return self.e("POP_JUMP_%s_IF_%s" % ("BACKWARD" if back else "FORWARD", w), Label(l))
        self.x(test)
        self._pj("TRUE" if sense else "FALSE", l, back)

    # loops
    def s_While(self, n):
        top, els, end = self.new(), self.new(), self.new()
        infinite = isinstance(n.test, ast.Constant) and n.test.value
        if self.fam == "A":
            self.e("SETUP_LOOP", Label(end))
        f = FB("while", top=top, end=end, infinite=infinite)
        self.fb.append(f)
        self.lab(top)
        if not infinite:
            self.cond(n.test, els)
        if self.v >= (3, 10) and not infinite:
            # loop inversion
            body = self.new()
            self.lab(body)
            f.top = self.new()
            for s in n.body:
                self.s(s)
            self.lab(f.top)
            self.jump_if(n.test, body, True, back=True)
        else:
            for s in n.body:
                self.s(s)
            self.jump(f.top, back=True)
        self.fb.pop()
        self.lab(els)
        if self.fam == "A" and not (infinite and self.v >= (2, 5)):
            self.e("POP_BLOCK")
        for s in n.orelse:
            self.s(s)
        self.lab(end)

    def s_For(self, n):
        top, els, end = self.new(), self.new(), self.new()
        if self.fam == "A":
            self.e("SETUP_LOOP", Label(end))
        self.x(n.iter)
        self.e("GET_ITER")
        self.depth += 1
        self.fb.append(FB("for", top=top, end=end))
        self.lab(top)
        self.e("FOR_ITER", Label(els))
        self.assign(n.target)
        for s in n.body:
            self.s(s)
        self.jump(top, back=True)
        self.fb.pop()
        self.depth -= 1
        self.lab(els)
        if self.fam == "A":
            self.e("POP_BLOCK")
        for s in n.orelse:
            self.s(s)
        self.lab(end)

    def s_Break(self, n):
        if self.fam == "A":
            return self.e("BREAK_LOOP")
        i = len(self.fb) - 1
        while self.fb[i].kind not in ("for", "while"):
            i -= 1
        self.unwind(i + 1, False)
        if self.fb[i].kind == "for":
            self.e("POP_TOP")
        self.jump(self.fb[i].end)

    def s_Continue(self, n):
        i = len(self.fb) - 1
        if self.fam == "A":
            if self.fb[i].kind in ("for", "while"):
                return self.e("JUMP_ABSOLUTE", Label(self.fb[i].top))
            while self.fb[i].kind not in ("for", "while"):
                if self.fb[i].kind == "finally_end":
                    raise Unsupported("continue in finally")
                i -= 1
            return self.e("CONTINUE_LOOP", Label(self.fb[i].top))
        while self.fb[i].kind not in ("for", "while"):
            i -= 1
        self.unwind(i + 1, False)
        back = not (self.v >= (3, 10) and self.fb[i].kind == "while" and not self.fb[i].infinite)
        if back:
            self.jump(self.fb[i].top, back=True)
        else:
            self.jump(self.fb[i].top)

    def s_Return(self, n):
        const = n.value is None or isinstance(n.value, ast.Constant)
        if self.fam == "A":
            if n.value is None:
                self.const(None)
            else:
                self.x(n.value)
            return self.e("RETURN_VALUE")
        if not const:
            self.x(n.value)
        self.unwind(0, not const)
        if const:
            self.const(n.value.value if n.value is not None else None)
        self.e("RETURN_VALUE")

    def unwind(self, base, tos):
        """3.8+: emit the code leaving all the blocks above `base`."""
        saved = list(self.fb)
        segs = list(self.exc_open) if hasattr(self, "exc_open") else None
        while len(self.fb) > base:
            f = self.fb.pop()
            self.unwind1(f, tos)
        self.fb = saved
        if self.fam == "D":
            # the rest of the statement list is unreachable, but the regions go on
            for f in self.fb:
                if getattr(f, "closed", None):
                    self.open_region(f)

    # 3.11 exception table regions
    def open_region(self, f):
        l = self.new()
        self.lab(l)
        f.region = l
        f.closed = False

    def close_region(self, f):
        l = self.new()
        self.lab(l)
        self.exc.append((f.region, l, f.handler, f.depth, f.lasti))
        f.closed = True

    def unwind1(self, f, tos):
        fam = self.fam
        k = f.kind
        if k == "while":
            return
        if k == "for":
            if tos:
                self.rot2()
            self.e("POP_TOP")
            return
        if k == "try":
            if fam == "D":
                self.close_region(f)
            else:
                self.e("POP_BLOCK")
        elif k == "finally_try":
            if fam == "D":
                self.close_region(f)
            else:
                self.e("POP_BLOCK")
            if fam == "B":
                if f.returns:
                    # the finally body has its own return/break: the value is dropped
                    if tos:
                        self.rot2()
                        self.e("POP_TOP")
                        self.const(None) if False else None
                    raise Unsupported("3.8 exit from finally")
                self.e("CALL_FINALLY", Label(f.handler_label))
            else:
                self.depth += 1 if tos else 0
                if tos:
                    self.fb.append(FB("value"))
                for s in f.final:
                    self.s(s)
                if tos:
                    self.fb.pop()
                    self.depth -= 1
        elif k == "value":
            if tos:
                self.rot2()
            self.e("POP_TOP")
        elif k == "finally_end":
            if fam == "B":
                raise Unsupported("3.8 exit from finally")
            if fam == "D":
                self.close_region(f)
                if tos:
                    self.rot2()
                self.e("POP_TOP")
                if tos:
                    self.rot2()
                self.e("POP_EXCEPT")
            else:
                if tos:
                    self.rot4()
                self.e("POP_TOP")
                self.e("POP_TOP")
                self.e("POP_TOP")
                if tos:
                    self.rot4()
                self.e("POP_EXCEPT")
        elif k == "with":
            if fam == "D":
                self.close_region(f)
            else:
                self.e("POP_BLOCK")
            if tos:
                self.rot2()
            if fam == "B":
                self.e("BEGIN_FINALLY")
                self.e("WITH_CLEANUP_START")
                self.e("WITH_CLEANUP_FINISH")
                self.e("POP_FINALLY", 0)
            else:
                self.exit_none()
        elif k == "handler":
            if fam == "B":
                if tos:
                    self.rot4()
                self.e("POP_EXCEPT")
            else:
                if fam == "D":
                    self.close_region(f)
                    if tos:
                        self.rot2()
                elif tos:
                    self.rot4()
                self.e("POP_EXCEPT")
        elif k == "handler_named":
            if fam == "B":
                if tos:
                    self.rot4()
                self.e("POP_BLOCK")
                if tos:
                    # value below the three saved entries
                    pass
                self.e("POP_EXCEPT")
                self.e("CALL_FINALLY", Label(f.handler_label))
            else:
                if fam == "D":
                    self.close_region(f)
                    self.close_region(f.outer)
                    f.outer.reopen = True
                    if tos:
                        self.rot2()
                else:
                    self.e("POP_BLOCK")
                    if tos:
                        self.rot4()
                self.e("POP_EXCEPT")
                self.const(None)
                self.store(f.name)
                self.delete(f.name)

    def exit_none(self):
        self.const(None)
        if self.fam == "D":
            self.const(None)
            self.const(None)
            # the exit method sits where a NULL-less callable goes: CALL 2 with exit as callable
            if self.v.has("PRECALL"):
                self.e("PRECALL", 2)
            self.e("CALL", 2)
        else:
            self.e("DUP_TOP")
            self.e("DUP_TOP")
            self.e("CALL_FUNCTION", 3)
        self.e("POP_TOP")

    # try
    def s_Try(self, n):
        if n.finalbody:
            self.try_finally(n)
        else:
            self.try_except(n)

    def try_finally(self, n):
        if n.handlers and self.v < (2, 5):
            raise Unsupported("try/except/finally in 2.4")

        def inner():
            if n.handlers:
                self.try_except(n)
            else:
                for s in n.body:
                    self.s(s)
        fam = self.fam
        if fam in "AB":
            h = self.new()
            self.e("SETUP_FINALLY", Label(h))
            self.fb.append(FB("finally_try", handler_label=h, final=n.finalbody, returns=leaves(n.finalbody)))
            inner()
            self.fb.pop()
            self.e("POP_BLOCK")
            if fam == "A":
                self.const(None)
            else:
                if leaves(n.finalbody):
                    raise Unsupported("3.8 exit from finally")
                self.e("BEGIN_FINALLY")
            self.lab(h)
            self.fb.append(FB("finally_end"))
            for s in n.finalbody:
                self.s(s)
            self.fb.pop()
            self.e("END_FINALLY")
            return
        h, end = self.new(), self.new()
        f = FB("finally_try", final=n.finalbody, handler=h, depth=self.depth, lasti=False)
        if fam == "C":
            self.e("SETUP_FINALLY", Label(h))
        self.fb.append(f)
        if fam == "D":
            self.open_region(f)
        inner()
        self.fb.pop()
        if fam == "C":
            self.e("POP_BLOCK")
        else:
            self.close_region(f)
        for s in n.finalbody:
            self.s(s)
        self.jump(end)
        self.lab(h)
        if fam == "C":
            self.fb.append(FB("finally_end"))
            for s in n.finalbody:
                self.s(s)
            self.fb.pop()
            if self.v >= (3, 10):
                self.e("RERAISE", 0)
            else:
                self.e("RERAISE")
        else:
            c = self.new()
            f = FB("finally_end", handler=c, depth=self.depth + 1, lasti=True)
            self.open_region(f)
            self.e("PUSH_EXC_INFO")
            self.fb.append(f)
            self.depth += 2
            for s in n.finalbody:
                self.s(s)
            self.e("RERAISE", 0)
            self.depth -= 2
            self.fb.pop()
            self.close_region(f)
            self.cleanup(c)
        self.lab(end)

    def cleanup(self, c):
        self.lab(c)
        self.e("COPY", 3)
        self.e("POP_EXCEPT")
        self.e("RERAISE", 1)

    def try_except(self, n):
        getattr(self, "try_except_" + self.fam)(n)

    def try_except_A(self, n):
        v = self.v
        h, els, end = self.new(), self.new(), self.new()
        setup = "SETUP_EXCEPT" if v < (3, 8) or self.v.has("SETUP_EXCEPT") else "SETUP_FINALLY"
        self.e(setup, Label(h))
        self.fb.append(FB("try"))
        for s in n.body:
            self.s(s)
        self.fb.pop()
        self.e("POP_BLOCK")
        self.jump(els)
        self.lab(h)
        py3 = v >= (3, 0)
        for hd in n.handlers:
            nxt = self.new()
            if hd.type is not None:
                self.e("DUP_TOP")
                self.x(hd.type)
                self.e("COMPARE_OP", CMPNAMES.index("exception match"))
                if v < (2, 7):
                    self.e("JUMP_IF_FALSE", Label(nxt))
                    self.e("POP_TOP")
                else:
                    self.e("POP_JUMP_IF_FALSE", Label(nxt))
            self.e("POP_TOP")
            if hd.name:
                self.store(hd.name)
            else:
                self.e("POP_TOP")
            self.e("POP_TOP")
            if py3 and hd.name:
                c = self.new()
                self.e("SETUP_FINALLY", Label(c))
                self.fb.append(FB("handler_named", handler_label=c, name=hd.name))
                for s in hd.body:
                    self.s(s)
                self.fb.pop()
                self.e("POP_BLOCK")
                if v < (3, 7):
                    self.e("POP_EXCEPT")
                if self.fam == "B":
                    self.e("BEGIN_FINALLY")
                else:
                    self.const(None)
                self.lab(c)
                self.const(None)
                self.store(hd.name)
                self.delete(hd.name)
                self.e("END_FINALLY")
                if v >= (3, 7):
                    self.e("POP_EXCEPT")
            else:
                self.fb.append(FB("handler"))
                for s in hd.body:
                    self.s(s)
                self.fb.pop()
                if py3:
                    self.e("POP_EXCEPT")
            self.jump(end)
            self.lab(nxt)
            if v < (2, 7) and hd.type is not None:
                self.e("POP_TOP")
        self.e("END_FINALLY")
        self.lab(els)
        for s in n.orelse:
            self.s(s)
        self.lab(end)

    try_except_B = try_except_A

    def try_except_C(self, n):
        v = self.v
        h, els, end = self.new(), self.new(), self.new()
        self.e("SETUP_FINALLY", Label(h))
        self.fb.append(FB("try"))
        for s in n.body:
            self.s(s)
        self.fb.pop()
        self.e("POP_BLOCK")
        self.jump(els)
        self.lab(h)
        for hd in n.handlers:
            nxt = self.new()
            if hd.type is not None:
                self.e("DUP_TOP")
                self.x(hd.type)
                self.e("JUMP_IF_NOT_EXC_MATCH", Label(nxt))
            self.e("POP_TOP")
            if hd.name:
                self.store(hd.name)
            else:
                self.e("POP_TOP")
            self.e("POP_TOP")
            if hd.name:
                c = self.new()
                self.e("SETUP_FINALLY", Label(c))
                self.fb.append(FB("handler_named", name=hd.name))
                for s in hd.body:
                    self.s(s)
                self.fb.pop()
                self.e("POP_BLOCK")
                self.e("POP_EXCEPT")
                self.const(None)
                self.store(hd.name)
                self.delete(hd.name)
                self.jump(end)
                self.lab(c)
                self.const(None)
                self.store(hd.name)
                self.delete(hd.name)
                if v >= (3, 10):
                    self.e("RERAISE", 1)
                else:
                    self.e("RERAISE")
            else:
                self.fb.append(FB("handler"))
                for s in hd.body:
                    self.s(s)
                self.fb.pop()
                self.e("POP_EXCEPT")
                self.jump(end)
            self.lab(nxt)
        if v >= (3, 10):
            self.e("RERAISE", 0)
        else:
            self.e("RERAISE")
        self.lab(els)
        for s in n.orelse:
            self.s(s)
        self.lab(end)

    def try_except_D(self, n):
        h, els, end, c = self.new(), self.new(), self.new(), self.new()
        f = FB("try", handler=h, depth=self.depth, lasti=False)
        self.fb.append(f)
        self.open_region(f)
        for s in n.body:
            self.s(s)
        self.fb.pop()
        self.close_region(f)
        self.jump(els)
        self.lab(h)
        o = FB("handler", handler=c, depth=self.depth + 1, lasti=True)
        self.open_region(o)
        self.e("PUSH_EXC_INFO")
        self.depth += 2
        for hd in n.handlers:
            nxt = self.new()
            if hd.type is not None:
                self.x(hd.type)
                self.e("CHECK_EXC_MATCH")
                self.jump_false(nxt)
            if hd.name:
                self.store(hd.name)
                c2 = self.new()
                self.depth -= 1
                g = FB("handler_named", name=hd.name, handler=c2, depth=self.depth, lasti=True, outer=o)
                self.open_region(g)
                self.fb.append(g)
                for s in hd.body:
                    self.s(s)
                    if o.closed:
                        self.open_region(o)
                self.fb.pop()
                self.close_region(g)
                self.close_region(o)
                self.e("POP_EXCEPT")
                self.const(None)
                self.store(hd.name)
                self.delete(hd.name)
                self.jump(end)
                self.lab(c2)
                self.open_region(o)
                self.const(None)
                self.store(hd.name)
                self.delete(hd.name)
                self.e("RERAISE", 1)
                self.depth += 1
            else:
                self.e("POP_TOP")
                self.depth -= 1
                self.fb.append(o)
                for s in hd.body:
                    self.s(s)
                self.fb.pop()
                self.close_region(o)
                self.e("POP_EXCEPT")
                self.jump(end)
                self.depth += 1
                self.open_region(o)
            self.lab(nxt)
        self.e("RERAISE", 0)
        self.close_region(o)
        self.depth -= 2
        self.cleanup(c)
        self.lab(els)
        for s in n.orelse:
            self.s(s)
        self.lab(end)

    # with
    def s_With(self, n):
        if self.v < (2, 5):
            raise Unsupported("with")
        self.with_items(n, list(n.items))

    def with_items(self, n, items):
        it = items[0]

        def body():
            if items[1:]:
                self.with_items(n, items[1:])
            else:
                for s in n.body:
                    self.s(s)
        v, fam = self.v, self.fam

        def bind():
            if it.optional_vars is not None:
                self.assign(it.optional_vars)
            else:
                self.e("POP_TOP")
        self.x(it.context_expr)
        if fam in "AB":
            h = self.new()
            if v.has("SETUP_WITH"):
                self.e("SETUP_WITH", Label(h))
                self.depth += 1
                self.fb.append(FB("with", handler_label=h))
                bind()
            else:
                # 2.5, 2.6, 3.1: the protocol is spelled out
                self.e("DUP_TOP")
                self.e("LOAD_ATTR", N("__exit__"))
                self.e("ROT_TWO")
                self.e("LOAD_ATTR", N("__enter__"))
                self.e("CALL_FUNCTION", 0)
                if it.optional_vars is not None:
                    self.tmp += 1
                    tmp = "_[%d]" % self.tmp
                    self.store(tmp)
                    self.depth += 1
                    self.e("SETUP_FINALLY", Label(h))
                    self.fb.append(FB("with", handler_label=h))
                    self.load(tmp)
                    self.delete(tmp)
                    self.assign(it.optional_vars)
                else:
                    self.e("POP_TOP")
                    self.depth += 1
                    self.e("SETUP_FINALLY", Label(h))
                    self.fb.append(FB("with", handler_label=h))
            body()
            self.fb.pop()
            self.depth -= 1
            self.e("POP_BLOCK")
            if fam == "A":
                self.const(None)
            else:
                self.e("BEGIN_FINALLY")
            self.lab(h)
            if v.has("WITH_CLEANUP"):
                self.e("WITH_CLEANUP")
            else:
                self.e("WITH_CLEANUP_START")
                self.e("WITH_CLEANUP_FINISH")
            self.e("END_FINALLY")
            return
        h, end, sup = self.new(), self.new(), self.new()
        if fam == "C":
            self.e("SETUP_WITH", Label(h))
            self.fb.append(FB("with"))
            self.depth += 1
            bind()
            body()
            self.fb.pop()
            self.depth -= 1
            self.e("POP_BLOCK")
            self.exit_none()
            self.jump(end)
            self.lab(h)
            self.e("WITH_EXCEPT_START")
            self.jump_true(sup)
            if v >= (3, 10):
                self.e("RERAISE", 1)
            else:
                self.e("RERAISE")
            self.lab(sup)
            self.e("POP_TOP")
            self.e("POP_TOP")
            self.e("POP_TOP")
            self.e("POP_EXCEPT")
            self.e("POP_TOP")
            self.lab(end)
            return
        self.e("BEFORE_WITH")
        self.depth += 1
        f = FB("with", handler=h, depth=self.depth, lasti=True)
        self.fb.append(f)
        self.open_region(f)
        bind()
        body()
        self.fb.pop()
        self.close_region(f)
        self.exit_none()
        self.jump(end)
        c = self.new()
        self.lab(h)
        o = FB("handler", handler=c, depth=self.depth + 2, lasti=True)
        self.open_region(o)
        self.e("PUSH_EXC_INFO")
        self.e("WITH_EXCEPT_START")
        self.jump_true(sup)
        self.e("RERAISE", 2)
        self.lab(sup)
        self.e("POP_TOP")
        self.close_region(o)
        self.e("POP_EXCEPT")
        self.e("POP_TOP")
        self.e("POP_TOP")
        self.jump(end)
        self.cleanup(c)
        self.depth -= 1
        self.lab(end)

    def s_Raise(self, n):
        k = 0
        if isinstance(n.exc, ast.Call) and getattr(n.exc.func, "id", "") == "raise2" and self.v < (3, 0):
            # the 2.x forms `raise A, B` and `raise A, B, C`
            for a in n.exc.args:
                self.x(a)
            self.e("RAISE_VARARGS", len(n.exc.args))
            return
        if n.exc is not None:
            self.x(n.exc)
            k = 1
            if n.cause is not None:
                if self.v < (3, 0):
                    raise Unsupported("raise from")
                self.x(n.cause)
                k = 2
        self.e("RAISE_VARARGS", k)

    def s_Assert(self, n):
        ok = self.new()
        self.x(n.test)
        self.jump_true(ok)
        if self.v >= (3, 9):
            self.e("LOAD_ASSERTION_ERROR")
        else:
            self.e("LOAD_GLOBAL", N("AssertionError"))
        if n.msg is not None:
            if self.v < (2, 7):
                self.x(n.msg)
                self.e("RAISE_VARARGS", 2)
                self.lab(ok)
                return
            if self.v >= (3, 11):
                raise Unsupported("3.11 assert with message")
            self.x(n.msg)
            self.e("CALL_FUNCTION", 1)
        self.e("RAISE_VARARGS", 1)
        self.lab(ok)

    # imports
    def s_Import(self, n):
        for a in n.names:
            if self.v >= (2, 5):
                self.const(-1 if self.v < (3, 0) else 0)
            if self.v >= (2, 4):
                self.const(None)
            self.e("IMPORT_NAME", N(a.name))
            if a.asname:
                parts = a.name.split(".")[1:]
                if self.v >= (3, 7):
                    for i, p in enumerate(parts):
                        self.e("IMPORT_FROM", N(p))
                        self.rot2()
                        self.e("POP_TOP")
                else:
                    for p in parts:
                        self.e("LOAD_ATTR", N(p))
                self.store(a.asname)
            else:
                self.store(a.name.split(".")[0])

    def s_ImportFrom(self, n):
        if self.v >= (2, 5):
            self.const(n.level if n.level or self.v >= (3, 0) else -1)
        self.const(tuple(a.name for a in n.names))
        self.e("IMPORT_NAME", N(n.module or ""))
        if n.names[0].name == "*":
            if self.v >= (3, 12):
                self.e("CALL_INTRINSIC_1", 2)
                self.e("POP_TOP")
            else:
                self.e("IMPORT_STAR")
            return
        for a in n.names:
            self.e("IMPORT_FROM", N(a.name))
            self.store(a.asname or a.name)
        self.e("POP_TOP")

    # classes
    def s_ClassDef(self, n):
        v = self.v
        if n.keywords and v < (3, 0):
            raise Unsupported("class keywords")
        if n.type_params:
            raise Unsupported("type parameters")
        if n.decorator_list and v < (2, 6):
            raise Unsupported("class decorators")
        for d in n.decorator_list:
            self.x(d)
        t = self.child(n.name, n.lineno, n)
        sub = Comp(v, t, n.name, "class", self, self.filename, self.subqual(n.name))
        sub.firstline = n.lineno
        if v < (3, 4):
            sub.flags |= 2
        sub.load("__name__")
        sub.e("STORE_NAME", N("__module__"))
        if v >= (3, 3):
            sub.const(sub.qual)
            sub.e("STORE_NAME", N("__qualname__"))
        sub.annotations_head(n.body)
        doc = ast.get_docstring(n, clean=False)
        if doc is not None:
            sub.const(doc)
            sub.e("STORE_NAME", N("__doc__"))
        if v < (3, 0):
            for s in n.body:
                sub.s(s)
            sub.e("LOAD_LOCALS")
            sub.e("RETURN_VALUE")
            code = sub.finish()
            self.const(n.name)
            for b in n.bases:
                self.x(b)
            self.e("BUILD_TUPLE", len(n.bases))
            clo = self.closure_of(sub)
            self.const(code)
            self.e("MAKE_CLOSURE" if clo else "MAKE_FUNCTION", 0)
            self.e("CALL_FUNCTION", 0)
            self.e("BUILD_CLASS")
        else:
            if v < (3, 4):
                sub.argc, sub.params = 1, ["__locals__"]
                head = [("LOAD_FAST", V("__locals__")), ("STORE_LOCALS",)]
                sub.out = head + sub.out
                sub.optimized = False
            for s in n.body:
                sub.s(s)
            if "__class__" in sub.cellvars:
                sub.e("LOAD_CLOSURE", D("__class__"))
                if v >= (3, 6):
                    sub.dup()
                    sub.e("STORE_NAME", N("__classcell__"))
            else:
                sub.const(None)
            sub.e("RETURN_VALUE")
            code = sub.finish()
            if v >= (3, 11):
                self.e("PUSH_NULL")
            self.e("LOAD_BUILD_CLASS")
            clo = self.closure_of(sub)
            self.const(code)
            if v < (3, 6):
                if v >= (3, 3):
                    self.const(n.name)
                self.e("MAKE_CLOSURE" if clo else "MAKE_FUNCTION", 0)
            else:
                if v < (3, 11):
                    self.const(n.name)
                self.e("MAKE_FUNCTION", 8 if clo else 0)
            self.const(n.name)
            self.args(n.bases, n.keywords, pre=2)
        for d in n.decorator_list:
            # 3.11: the decorator sits where a NULL-less callable goes
            self.call(0 if self.ge(3, 11) else 1)
        self.store(n.name)


def leaves(stmts):
    """Does this finally body leave by return/break/continue?"""
    def rec(s, loop):
        if isinstance(s, ast.Return):
            return True
        if isinstance(s, (ast.Break, ast.Continue)):
            return not loop
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return False
        inner = loop or isinstance(s, (ast.For, ast.While))
        return any(rec(c, inner) for c in ast.iter_child_nodes(s) if isinstance(c, (ast.stmt, ast.excepthandler)))
    return any(rec(s, False) for s in stmts)


def any_yield(fn):
    def rec(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp, ast.SetComp,
                              ast.DictComp)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                return True
            if rec(c):
                return True
        return False
    return rec(ast.Module(body=fn.body, type_ignores=[]))


class _Scopes(ast.NodeTransformer):
    """The host's symbol table has no entry for the comprehensions it inlines: let
    generator expressions stand for those that have their own scope in the version."""

    def __init__(self, ver):
        self.ver = ver

    def visit_ListComp(self, n):
        self.generic_visit(n)
        return n if self.ver < (3, 0) else ast.GeneratorExp(elt=n.elt, generators=n.generators)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.GeneratorExp(elt=n.elt, generators=n.generators)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return ast.GeneratorExp(elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators)


class _Mangle(ast.NodeTransformer):
    """Names private to a class"""

    cls = None

    def m(self, name):
        if self.cls is None or not name or not name.startswith("__") or name.endswith("__") or "." in name:
            return name
        c = self.cls.lstrip("_")
        return "_%s%s" % (c, name) if c else name

    def visit_ClassDef(self, n):
        n.name = self.m(n.name)
        n.bases = [self.visit(b) for b in n.bases]
        n.keywords = [self.visit(k) for k in n.keywords]
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        old, self.cls = self.cls, n.name
        n.body = [self.visit(b) for b in n.body]
        self.cls = old
        return n

    def generic_visit(self, n):
        for f in ("id", "attr", "arg", "name"):
            x = getattr(n, f, None)
            if isinstance(x, str) and not isinstance(n, ast.alias):
                setattr(n, f, self.m(x))
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            n.names = [self.m(x) for x in n.names]
        return super().generic_visit(n)


def scope_source(tree, ver):
    import copy
    return ast.unparse(ast.fix_missing_locations(_Scopes(ver).visit(copy.deepcopy(tree))))


def compile_for(ver, src, filename="<symx>", native=True):
    """Module code object of `src` for version `ver`."""
    if ver.tup == sys.version_info[:2] and native and not ver.pypy:
        return compile(src, filename, "exec", dont_inherit=True)
    tree = ast.fix_missing_locations(_Mangle().visit(ast.parse(src, filename)))
    c = Comp(ver, symtable.symtable(scope_source(tree, ver), filename, "exec"), "<module>", "module", None, filename)
    c.firstline = 1
    c.body(tree.body)
    return c.finish()
