"""C03 unary, binary, in-place and comparison operators."""
import operator

from symx.lib import *  # noqa
from symx.anyvalue import any_checks

PROP = "C03"
ASSUMPTIONS = [
    "operands are opaque objects whose operator methods are uninterpreted functions; each operation may symbolically "
    "raise, return, or (in-place) be absent",
    "symbolic integers stand for Python ints where the operator's choice depends on the operand type",
]
BOUNDS = "every operator opcode/operand of each version; one operation per program; integer operands in [-40, 40]"

BIN = {"POWER": operator.pow, "MULTIPLY": operator.mul, "MODULO": operator.mod, "ADD": operator.add,
       "SUBTRACT": operator.sub, "SUBSCR": operator.getitem, "FLOOR_DIVIDE": operator.floordiv,
       "TRUE_DIVIDE": operator.truediv, "LSHIFT": operator.lshift, "RSHIFT": operator.rshift, "AND": operator.and_,
       "XOR": operator.xor, "OR": operator.or_, "MATRIX_MULTIPLY": operator.matmul, "DIVIDE": None}
INP = {"POWER": operator.ipow, "MULTIPLY": operator.imul, "MODULO": operator.imod, "ADD": operator.iadd,
       "SUBTRACT": operator.isub, "FLOOR_DIVIDE": operator.ifloordiv, "TRUE_DIVIDE": operator.itruediv,
       "LSHIFT": operator.ilshift, "RSHIFT": operator.irshift, "AND": operator.iand, "XOR": operator.ixor,
       "OR": operator.ior, "MATRIX_MULTIPLY": operator.imatmul, "DIVIDE": None}
UN = {"POSITIVE": operator.pos, "NEGATIVE": operator.neg, "NOT": operator.not_, "INVERT": operator.invert}
# 3.11+ BINARY_OP operand -> operator (order of the NB_ constants in CPython)
NB = ["ADD", "AND", "FLOOR_DIVIDE", "LSHIFT", "MATRIX_MULTIPLY", "MULTIPLY", "MODULO", "OR", "POWER", "RSHIFT",
      "SUBTRACT", "TRUE_DIVIDE", "XOR"]
CMP = {"<": operator.lt, "<=": operator.le, "==": operator.eq, "!=": operator.ne, ">": operator.gt,
       ">=": operator.ge, "in": lambda a, b: a in b, "not in": lambda a, b: a not in b,
       "is": lambda a, b: a is b, "is not": lambda a, b: a is not b}


def run_op(ctx, v, body, env, reffn, label="result", outs=1):
    code = program(v, body, list(env), outs)
    got = run_program(ctx, v, code, dict(env))
    want = ctx.run(lambda: (reffn(*env.values()),))
    ctx.same(got, want, label)


def binop(v, hid, body, f, cls=Obj, names=("a", "b")):
    def fn(ctx):
        ctx.faults = True
        run_op(ctx, v, body, {n: ctx.obj(n, cls) for n in names}, f)
    return H(hid, fn, str(v))


def same_operand(v, hid, body, f):
    """Both operands are the same object."""
    def fn(ctx):
        ctx.faults = True
        a = ctx.obj("a")
        run_op(ctx, v, body, {"a": a, "b": a}, f)
    return H(hid, fn, str(v))


def classic(v, hid, body):
    """Python 2's classic division on numbers."""
    def fn(ctx):
        kind = ctx.choose("kind", ["int", "float-int", "int-float", "float"])
        if kind == "int":
            a, b = ctx.int("a", -40, 40), ctx.int("b", -40, 40)
            run_op(ctx, v, body, {"a": a, "b": b}, lambda a, b: a // b)
        else:
            n, d = ctx.choose("n", [7, -7, 0, 5]), ctx.choose("d", [2, -2, 4])
            if "float-" in kind or kind == "float":
                n = float(n)
            if "-float" in kind or kind == "float":
                d = float(d)
            run_op(ctx, v, body, {"a": n, "b": d}, lambda a, b: a / b)
    return H(hid, fn, str(v))


def intop(v, hid, body, f, lo=-40, hi=40):
    def fn(ctx):
        a, b = ctx.int("a", lo, hi), ctx.int("b", lo, hi)
        run_op(ctx, v, body, {"a": a, "b": b}, f)
    return H(hid, fn, str(v))


def nb_symbolic(v):
    """BINARY_OP with a symbolic operand: the operator selected is the documented one."""
    def fn(ctx):
        ctx.faults = True
        k = ctx.int("operand", 0, 25)
        a, b = ctx.obj("a", InplaceObj), ctx.obj("b", InplaceObj)
        code = program(v, [("BINARY_OP", 0)], ["a", "b"], 1)
        patch(ctx, code, "BINARY_OP", [k])
        got = run_program(ctx, v, code, {"a": a, "b": b})
        k = int(k)
        f = BIN[NB[k]] if k < 13 else INP[NB[k - 13]]
        ctx.same(got, ctx.run(lambda: (f(a, b),)), "result")
    return H("%s/BINARY_OP" % v, fn, str(v))


def is_op(v, hid, body, f):
    def fn(ctx):
        a = ctx.obj("a")
        b = ctx.choose("b", [a, ctx.obj("b"), None])
        if b is None:
            a = ctx.choose("a", [None, a])
        run_op(ctx, v, body, {"a": a, "b": b}, f)
    return H(hid, fn, str(v))


# operator -> (method of the left operand, of the right operand, in-place method)
REFLECTED = {"<": ("__lt__", "__gt__"), "<=": ("__le__", "__ge__"), "==": ("__eq__", "__eq__"),
             "!=": ("__ne__", "__ne__"), ">": ("__gt__", "__lt__"), ">=": ("__ge__", "__le__")}
DUNDER = {"POWER": "pow", "MULTIPLY": "mul", "MODULO": "mod", "ADD": "add", "SUBTRACT": "sub",
          "FLOOR_DIVIDE": "floordiv", "TRUE_DIVIDE": "truediv", "LSHIFT": "lshift", "RSHIFT": "rshift", "AND": "and",
          "XOR": "xor", "OR": "or", "MATRIX_MULTIPLY": "matmul"}


def protocol(v, hid, body, f, left, right=(), inplace=()):
    """Operands whose classes define the operator's methods or not; each method may decline."""
    def fn(ctx):
        a = proto(ctx, "a", list(left) + list(inplace))
        if not (left and right):
            env = {"a": a}
            if right:
                env["b"] = a
        elif ctx.bool("subclass"):
            env = {"a": a, "b": proto(ctx, "b", right, (type(a),))}
        else:
            env = {"a": a, "b": proto(ctx, "b", right)}
        run_op(ctx, v, body, env, f)
    return H(hid, fn, str(v))


class Items:
    """an iterator over the objects i0, i1; may raise"""

    def __init__(self, name):
        self.name, self.n = name, 0

    def __iter__(self):
        return self

    def __next__(self):
        c = engine.cur()
        c.event("next", self.name)
        if self.n >= 2 or not c.bool("%s.more%d" % (self.name, self.n)):
            raise StopIteration
        self.n += 1
        return c.choose("%s.item%d" % (self.name, self.n), [Term((self.name, self.n)), 1])


def container(ctx, name):
    """A container that supports `in` in one of the four ways."""
    how = ctx.choose(name + ".kind", ["contains", "iter", "getitem", "none", "contains=None"])
    ns = {}
    if how == "contains":
        ns["__contains__"] = lambda self, x: (engine.cur().event("contains", self, x),
                                              ctx.choose(name + ".result", [True, False, 0, "x", None]))[1]
    if how in ("iter", "contains", "contains=None"):
        ns["__iter__"] = lambda self: Items(name)
    if how == "contains=None":
        ns["__contains__"] = None
    if how == "getitem":
        def getitem(self, i):
            if i >= 2 or not ctx.bool("%s.more%d" % (name, i)):
                raise IndexError(i)
            return ctx.choose("%s.item%d" % (name, i), [7, 1])
        ns["__getitem__"] = getitem
    return type("C_" + name, (Term,), ns)((name,))


def membership(v, hid, body, f):
    def fn(ctx):
        run_op(ctx, v, body, {"a": 1, "b": container(ctx, "b")}, f)
    return H(hid, fn, str(v))


def harnesses():
    hs = []
    for v in ALL + MICRO:
        for name, f in UN.items():
            op = "UNARY_" + name
            if v.has(op):
                hs.append(binop(v, "%s/%s" % (v, op), [(op,)], f, names=("a",)))
                m = {"POSITIVE": ["__pos__"], "NEGATIVE": ["__neg__"], "INVERT": ["__invert__"]}.get(name)
                if m:
                    hs.append(protocol(v, "%s/%s-protocol" % (v, op), [(op,)], f, m))
        if v.has("UNARY_CONVERT"):
            def conv(ctx, v=v):
                a = ctx.obj("a")
                run_op(ctx, v, [("UNARY_CONVERT",)], {"a": a}, repr)
            hs.append(H("%s/UNARY_CONVERT" % v, conv, str(v)))
        for name, f in BIN.items():
            op = "BINARY_" + name
            if not v.has(op):
                continue
            if name == "DIVIDE":
                hs.append(classic(v, "%s/%s" % (v, op), [(op,)]))
                hs.append(binop(v, "%s/%s-obj" % (v, op), [(op,)], lambda a, b: a.__div__(b)))
                continue
            hs.append(binop(v, "%s/%s" % (v, op), [(op,)], f))
            hs.append(same_operand(v, "%s/%s-self" % (v, op), [(op,)], f))
            if name in DUNDER:
                d = DUNDER[name]
                hs.append(protocol(v, "%s/%s-protocol" % (v, op), [(op,)], f, ["__%s__" % d], ["__r%s__" % d]))
            if name in ("ADD", "SUBTRACT", "MODULO", "FLOOR_DIVIDE", "MULTIPLY"):
                hs.append(intop(v, "%s/%s-int" % (v, op), [(op,)], f))
        for name, f in INP.items():
            op = "INPLACE_" + name
            if not v.has(op):
                continue
            if name == "DIVIDE":
                hs.append(classic(v, "%s/%s" % (v, op), [(op,)]))
                hs.append(binop(v, "%s/%s-obj" % (v, op), [(op,)], lambda a, b: a.__div__(b)))
                hs.append(binop(v, "%s/%s-inplace" % (v, op), [(op,)], lambda a, b: a.__idiv__(b), InplaceObj))
                continue
            hs.append(binop(v, "%s/%s" % (v, op), [(op,)], f))
            hs.append(binop(v, "%s/%s-inplace" % (v, op), [(op,)], f, InplaceObj))
            if name in DUNDER:
                d = DUNDER[name]
                hs.append(protocol(v, "%s/%s-protocol" % (v, op), [(op,)], f, ["__%s__" % d], ["__r%s__" % d],
                                   ["__i%s__" % d]))
        if v.has("BINARY_OP"):
            hs.append(nb_symbolic(v))
            for k in range(26):
                d = DUNDER[NB[k % 13]]
                hs.append(protocol(v, "%s/BINARY_OP-%d-protocol" % (v, k), [("BINARY_OP", k)],
                                   BIN[NB[k]] if k < 13 else INP[NB[k - 13]], ["__%s__" % d], ["__r%s__" % d],
                                   ["__i%s__" % d] if k >= 13 else []))
        # comparisons
        ops = list(v.opc.cmp_op)
        for name, f in CMP.items():
            tag = "%s/COMPARE %s" % (v, name)
            if name in ("is", "is not") and v.has("IS_OP"):
                body = [("IS_OP", int(name == "is not"))]
            elif name in ("in", "not in") and v.has("CONTAINS_OP"):
                body = [("CONTAINS_OP", int(name == "not in"))]
            elif name in ops:
                k = ops.index(name)
                if v >= (3, 12):
                    k <<= 4
                body = [("COMPARE_OP", k)]
            else:
                continue
            if name in ("is", "is not"):
                hs.append(is_op(v, tag, body, f))
            else:
                hs.append(binop(v, tag, body, f))
                if name in REFLECTED:
                    hs.append(protocol(v, tag + "-protocol", body, f, [REFLECTED[name][0]], [REFLECTED[name][1]]))
                else:
                    hs.append(membership(v, tag + "-protocol", body, f))
                if name not in ("in", "not in"):
                    hs.append(intop(v, tag + "-int", body, f))
                else:
                    def contint(ctx, v=v, body=body, f=f):
                        a = ctx.int("a", 0, 9)
                        box = ctx.choose("box", [(), (1,), (1, 5), {3: 1, 4: 2}])
                        run_op(ctx, v, body, {"a": a, "b": box}, f)
                    hs.append(H(tag + "-int", contint, str(v)))
    hs += any_checks(PROP, ALL)
    return hs
