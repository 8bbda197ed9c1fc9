"""C06 displays, unpacking, subscripts and slices."""
from symx.lib import *  # noqa
from symx.anyvalue import any_checks

PROP = "C06"
ASSUMPTIONS = ["element values are opaque objects, small iterables of symbolic length whose steps may raise, or keys drawn "
               "from a small set that includes equal and unhashable ones",
               "Python 2's __getslice__ family is not modelled: a slice is passed to __getitem__ as in new-style classes",
               "source programs are compiled for each version by symx/pyc.py; the reference is the host Python"]
BOUNDS = ("every collection instruction of each version, element counts 0..5 (0..3 iterables or mappings of symbolic "
          "length <= 2), unpacking counts 0..4 from sources of symbolic length 0..5, slice bounds opaque, absent or "
          "symbolic integers in [-4, 4]")

NITEMS = 5


class Map:
    """a mapping that is not a dict"""

    def __init__(self, env, k, pairs):
        self.env, self.k, self.d = env, k, dict(pairs)

    def keys(self):
        self.env.step("keys", self.k)
        return list(self.d)

    def __getitem__(self, key):
        self.env.step("getkey", self.k)
        return self.d[key]


def put(v, op, ins, outs, env, f, hid=None, operand=None, tail=None):
    """env(ctx) -> {name: value}, drawn afresh for the VM and for the reference;
    f(values) is the reference giving the expected stack."""
    def fn(ctx):
        body = [(op,) if operand is None else (op, operand)]
        code = program(v, body + (tail or []), ins, outs)
        got = run_program_env(ctx, v, code, env)
        want = ctx.run(lambda: tuple(f(*[env(ctx)[n] for n in ins])) if False else tuple(_ref(ctx, env, ins, f)))
        ctx.same(got, want, "value")
    return H("%s/%s%s" % (v, op, hid or ""), fn, str(v))


def _ref(ctx, env, ins, f):
    e = env(ctx)
    return f(*[e[n] for n in ins])


def run_program_env(ctx, v, code, env):
    def thunk():
        m = v.vm()
        l = {"_sentinel": SENT}
        l.update(env(ctx))
        r = execute(m, code, None, l)
        if type(r) is not tuple or not r or r[0] is not SENT:
            return ("stack-corrupted", r)
        return r[1:]
    return ctx.run(thunk)


def opaque(names):
    return lambda ctx: {n: ctx.obj(n) for n in names}


KEYS = ["p", "q", 1, True, 1.0, "unhashable"]


def keyed(names, keys, opts=("p", "q", 1, True)):
    def env(ctx):
        d = {n: ctx.obj(n) for n in names}
        for k in keys:
            x = ctx.choose("key." + k, opts)
            d[k] = [] if x == "unhashable" else x
        return d
    return env


def source(ctx, e, k, kinds):
    """an iterable for unpacking: list, tuple, one-shot iterator that may raise, str, or not iterable"""
    kind = ctx.choose("kind." + k, kinds)
    if kind == "none":
        return None
    if kind == "obj":
        return 5
    if kind == "it":
        return e.it(k, 4 if len(kinds) > 3 else 2)
    n = ctx.choose("len." + k, range(0, 6 if len(kinds) > 3 else 3))
    xs = [ctx.obj("%s%d" % (k, i)) for i in range(n)]
    return {"list": list, "tuple": tuple, "str": lambda x: "abcdef"[:len(x)], "dict": lambda x: {str(i): 1 for i in range(len(x))},
            "gen": lambda x: (y for y in x)}[kind](xs)


def iters(names, kinds=("list", "it", "obj"), faults=True, pre=None):
    def env(ctx):
        e = Env(ctx, {"iter": (E1,), "next": (E1,)} if faults else {})
        d = {n: source(ctx, e, n, kinds) for n in names}
        for k, mk in (pre or {}).items():
            d[k] = mk(ctx)
        return d
    return env


def mapping(ctx, e, k):
    kind = ctx.choose("kind." + k, ["dict", "map", "list"])
    if kind == "list":
        return [("p", 1)]
    ks = ctx.choose("keys." + k, [(), ("p",), ("p", "q"), ("q", "p")])
    pairs = [(x, ctx.obj("%s.%s" % (k, x))) for x in ks]
    return dict(pairs) if kind == "dict" else Map(e, k, pairs)


def maps(names, pre=None):
    def env(ctx):
        e = Env(ctx, {"keys": (E1,), "getkey": (E1, KeyError)})
        d = {n: mapping(ctx, e, n) for n in names}
        for k, mk in (pre or {}).items():
            d[k] = mk(ctx)
        return d
    return env


def flat(t):
    def f(*xs):
        out = []
        for x in xs:
            out.extend(x)
        return [t(out)]
    return f


def merge(*ds):
    out = {}
    for d in ds:
        if not hasattr(d, "keys"):
            raise TypeError
        out.update(d)
    return [out]


def pairs(*kv):
    d = {}
    for i in range(0, len(kv), 2):
        d[kv[i]] = kv[i + 1]
    return [d]


def unpack(n):
    def f(s):
        it = iter(s)
        out = []
        for _ in range(n):
            try:
                out.append(next(it))
            except StopIteration:
                raise ValueError from None
        try:
            next(it)
        except StopIteration:
            return out[::-1]
        raise ValueError
    return f


def unpack_ex(b, a):
    def f(s):
        it = iter(s)
        out = []
        for _ in range(b):
            try:
                out.append(next(it))
            except StopIteration:
                raise ValueError from None
        rest = list(it)
        if len(rest) < a:
            raise ValueError
        tail = rest[len(rest) - a:] if a else []
        rest = rest[:len(rest) - a]
        return (out + [rest] + tail)[::-1]
    return f


class Sub(Obj):
    """a container that records and may refuse"""

    __hash__ = object.__hash__


def fault_objs(names, ints=()):
    def env(ctx):
        ctx.faults = True
        d = {n: ctx.obj(n) for n in names}
        for n in ints:
            d[n] = ctx.choose("bound." + n, [ctx.obj(n), None, 2])
        return d
    return env


def real_slices(names, op):
    """a real list, with integer bounds drawn symbolically"""
    def env(ctx):
        d = {}
        for n in names:
            if n == "o":
                d[n] = [ctx.obj("o%d" % i) for i in range(4)]
            elif n == "val":
                d[n] = [ctx.obj("v%d" % i) for i in range(2)]
            else:
                d[n] = ctx.choose("bound." + n, [None, 0, 1, 3, -1, 7])
        return d
    return env


def store_and_see(v, op, ins, hid, env, f, operand=None):
    """Instructions without a result: the container is checked afterwards."""
    def fn(ctx):
        code = program(v, [(op,) if operand is None else (op, operand)], ins, 0)

        def vm():
            e = env(ctx)
            l = {"_sentinel": SENT}
            l.update(e)
            m = v.vm()
            r = execute(m, code, None, l)
            return r, e["o"]

        def host():
            e = env(ctx)
            f(*[e[n] for n in ins])
            return (SENT,), e["o"]
        ctx.same(ctx.run(vm), ctx.run(host), "effect")
    return H("%s/%s%s" % (v, op, hid or ""), fn, str(v))


def setslice(val, o, *b):
    o[b[0]:b[1]] = val


def instr_checks(v):
    hs = []
    names = ["x%d" % i for i in range(NITEMS)]

    def add(op, *a, **kw):
        if v.has(op):
            hs.append(put(v, op, *a, **kw))
    for n in range(NITEMS + 1):
        add("BUILD_TUPLE", names[:n], 1, opaque(names[:n]), lambda *x: [tuple(x)], "-%d" % n, n)
        add("BUILD_LIST", names[:n], 1, opaque(names[:n]), lambda *x: [list(x)], "-%d" % n, n)
    for n in range(4):
        add("BUILD_SET", names[:n], 1, keyed([], names[:n], ("p", "q", "unhashable")), lambda *x: [set(x)], "-%d" % n, n)
    if v < (3, 5):
        add("BUILD_MAP", [], 1, opaque([]), lambda: [{}], "", 0)
        add("BUILD_MAP", [], 1, opaque([]), lambda: [{}], "-sized", 7)
    else:
        for n in range(4):
            ks = ["k%d" % i for i in range(n)]
            ins = [x for i in range(n) for x in ("k%d" % i, "x%d" % i)]
            add("BUILD_MAP", ins, 1, keyed(names[:n], ks, ("p", "q", "unhashable") if n > 2 else KEYS), pairs, "-%d" % n, n)
            add("BUILD_CONST_KEY_MAP", names[:n] + ["ks"], 1,
                (lambda n: lambda ctx: dict({x: ctx.obj(x) for x in names[:n]},
                                            ks=ctx.choose("ks", [("p", "q", "r")[:n], (1, True, 1.0)[:n], ("r", "p", "q")[:n]])))(n),
                (lambda n: lambda *x: [dict(zip(x[n], x[:n]))])(n), "-%d" % n, n)
    if v.has("STORE_MAP"):
        hs.append(put(v, "STORE_MAP", ["o", "val", "key"], 1,
                      lambda ctx: {"o": {"p": ctx.obj("old")}, "val": ctx.obj("val"),
                                   "key": ctx.choose("key", ["p", "q", ()])},
                      lambda o, val, key: [dict(o, **{}) if False else {**o, key: val}]))
    # building by iterables
    for n in range(3):
        ns = names[:n]
        add("BUILD_TUPLE_UNPACK", ns, 1, iters(ns), flat(tuple), "-%d" % n, n)
        add("BUILD_LIST_UNPACK", ns, 1, iters(ns), flat(list), "-%d" % n, n)
        add("BUILD_SET_UNPACK", ns, 1, iters(ns, ("dict", "it", "obj")), flat(set), "-%d" % n, n)
        add("BUILD_MAP_UNPACK", ns, 1, maps(ns), merge, "-%d" % n, n)
    add("LIST_TO_TUPLE", ["o"], 1, iters(["o"], ("list",)), lambda o: [tuple(o)])
    # comprehension and display steps: the container lies below other entries
    if v >= (2, 7):
        for depth in (1, 2, 3):
            fill = ["f%d" % i for i in range(depth - 1)]
            hid = "-depth%d" % depth

            def cont(mk, ks=(), xs=("x",), fill=fill, opts=("p", "q", "unhashable")):
                def env(ctx):
                    d = keyed(list(fill) + list(xs), list(ks), opts)(ctx)
                    d["o"] = mk(ctx)
                    return d
                return env
            two = lambda ctx: [ctx.obj("y0"), ctx.obj("y1")]
            add("LIST_APPEND", ["o"] + fill + ["x"], depth, cont(two), lambda o, *x: [o + [x[-1]]] + list(x[:-1]),
                hid, depth)
            add("SET_ADD", ["o"] + fill + ["k"], depth, cont(lambda ctx: {"p"}, ["k"]),
                lambda o, *x: [o | {x[-1]}] + list(x[:-1]), hid, depth)
            ko = ["x", "k"] if v < (3, 8) else ["k", "x"]
            add("MAP_ADD", ["o"] + fill + ko, depth, cont(lambda ctx: {"p": ctx.obj("old")}, ["k"]),
                (lambda kx: lambda o, *x: [{**o, x[kx]: x[-3 - kx]}] + list(x[:-2]))(-1 if v < (3, 8) else -2), hid, depth)
            pre = {"o": two, **{f: (lambda f: lambda ctx: ctx.obj(f))(f) for f in fill}}
            add("LIST_EXTEND", ["o"] + fill + ["s"], depth, iters(["s"], pre=pre),
                lambda o, *x: [o + list(x[-1])] + list(x[:-1]), hid, depth)
            add("SET_UPDATE", ["o"] + fill + ["s"], depth,
                iters(["s"], ("dict", "it", "obj"), pre=dict(pre, o=lambda ctx: {"p"})),
                lambda o, *x: [o | set(x[-1])] + list(x[:-1]), hid, depth)
            add("DICT_UPDATE", ["o"] + fill + ["s"], depth, maps(["s"], pre=dict(pre, o=lambda ctx: {"p": ctx.obj("old")})),
                lambda o, *x: merge(o, x[-1]) + list(x[:-1]), hid, depth)
    else:
        add("LIST_APPEND", ["o", "x"], 0, opaque(["o", "x"]), None, "") if False else None
        hs.append(store_and_see(v, "LIST_APPEND", ["o", "x"], "",
                                lambda ctx: {"o": [ctx.obj("y")], "x": ctx.obj("x")}, lambda o, x: o.append(x)))
    # unpacking
    for n in range(5):
        add("UNPACK_SEQUENCE", ["s"], n, iters(["s"], ("list", "tuple", "it", "str", "dict", "gen", "obj", "none")),
            unpack(n), "-%d" % n, n)
    for b, a in [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (0, 3)]:
        add("UNPACK_EX", ["s"], b + a + 1, iters(["s"], ("list", "tuple", "it", "str", "gen", "obj")),
            unpack_ex(b, a), "-%d-%d" % (b, a), b + (a << 8))
    # subscripts and slices
    fo = fault_objs
    add("BINARY_SUBSCR", ["o", "k"], 1, fo(["o", "k"]), lambda o, k: [o[k]])
    hs.append(store_and_see(v, "STORE_SUBSCR", ["val", "o", "k"], "", fo(["val", "o", "k"]),
                            lambda val, o, k: o.__setitem__(k, val)))
    hs.append(store_and_see(v, "DELETE_SUBSCR", ["o", "k"], "", fo(["o", "k"]), lambda o, k: o.__delitem__(k)))
    add("BUILD_SLICE", ["a", "b"], 1, opaque("ab"), lambda a, b: [slice(a, b)], "-2", 2)
    add("BUILD_SLICE", ["a", "b", "c"], 1, opaque("abc"), lambda *x: [slice(*x)], "-3", 3)
    for kind, mk in (("", lambda ns: fo([n for n in ns if n in ("o", "val")], [n for n in ns if n not in ("o", "val")])),
                     ("-list", lambda ns: real_slices(ns, None))):
        add("BINARY_SLICE", ["o", "a", "b"], 1, mk(["o", "a", "b"]), lambda o, a, b: [o[a:b]], kind)
        if v.has("STORE_SLICE"):
            hs.append(store_and_see(v, "STORE_SLICE", ["val", "o", "a", "b"], kind, mk(["val", "o", "a", "b"]), setslice))
        for i, bs in enumerate(([], ["a"], ["b"], ["a", "b"])):
            for pre in ("SLICE", "STORE_SLICE", "DELETE_SLICE"):
                op = [o for o in (pre + "_%d" % i, pre + "+%d" % i) if v.has(o)]
                if not op:
                    continue

                def bounds(x, i=i):
                    return slice(x[0] if i & 1 else None, x[-1] if i & 2 else None)
                if pre == "SLICE":
                    add(op[0], ["o"] + bs, 1, mk(["o"] + bs), lambda o, *x, f=bounds: [o[f(x)]], kind)
                elif pre == "STORE_SLICE":
                    hs.append(store_and_see(v, op[0], ["val", "o"] + bs, kind, mk(["val", "o"] + bs),
                                            lambda val, o, *x, f=bounds: o.__setitem__(f(x), val)))
                else:
                    hs.append(store_and_see(v, op[0], ["o"] + bs, kind, mk(["o"] + bs),
                                            lambda o, *x, f=bounds: o.__delitem__(f(x))))
    return hs


F = {"ev": (E1,)}
FI = {"next": (E1,), "iter": (E1,)}

SRC = {
    "displays-order": ('''
R = []
try:
    R.append([ev(1), (ev(2), ev(3)), [], [ev(4)], ()])
    R.append({ev(5), ev(6), ev(5)})
except E1:
    R.append("e")
''', F, {"lo": (2, 7)}),
    "tuple-list": ('''
R = []
try:
    R.append([ev(1), (ev(2), ev(3)), [], [ev(4)], ()])
except E1:
    R.append("e")
''', F),
    "dict-display": '''
a = n(1); b = n(2)
R = [{}, {a: 1}, {a: 1, b: 2}, {a: {b: [a]}, "k": 2, 3: (a, b)}, {1: a, 2: b, True: 3}]
R.append({"x": a, "y": b, "z": 3})
''',
    "dict-order": ('''
R = []
try:
    R.append({ev(1): ev(2), ev(3): ev(4)})
    R.append({"a": ev(5), "b": ev(6)})
except E1:
    R.append("e")
''', F, {"lo": (3, 5)}),
    "star-displays": ('''
R = []
try:
    R.append([*it(1), ev(2), *it(3)])
    R.append((ev(4), *it(5)))
    R.append({*it(6), 3})
except E1:
    R.append("e")
''', dict(F, **FI), {"lo": (3, 9)}),
    "star-displays-38": '''
a, b = [1, 2, 3][:n(1, 0, 3)], (4, 5)[:n(2)]
R = [[*a, 9, *b], (7, *b), {*a, 3}, [*a], (*a, *b), {*b, *a}]
try:
    [*a, *5]
except TypeError:
    R.append("te")
''',
    "star-dicts": '''
a = {n(1): "a", 5: "five"}
b = {n(2): "b"}
R = [{**a, **b}, {1: 0, **a}, {**b, 1: 0}, {**a, 5: 6, **b}]
try:
    {**a, **[1]}
except TypeError:
    R.append("te")
''',
    "unpack": ('''
R = []
try:
    a, b = it(1, 3)
    R.append((a, b))
    [c_, (d, e)] = ev(1), it(2, 3)
    R.append((c_, d, e))
except ValueError:
    R.append("ve")
except E1:
    R.append("e1")
''', FI),
    "unpack-star": ('''
R = []
try:
    a, *b = it(1, 3)
    R.append((a, b))
    *c_, d = it(2, 3)
    R.append((c_, d))
    e, *f, g = it(3, 3)
    R.append((e, f, g))
except ValueError:
    R.append("ve")
''', FI, {"lo": (3, 1)}),
    "unpack-order": ('''
class O:
    def __setitem__(self, k, val): ev("set", k, val)
    def __setattr__(self, k, val): ev("attr", k, val)
o = O()
R = []
try:
    o[ev(1)], o.x, (o[ev(2)], o[ev(3)]) = ev(4), ev(5), (ev(6), ev(7))
    o[ev(8)] = o.y = o[ev(9)] = ev(10)
except E1:
    R.append("e")
''', F),
    "swap": '''
a, b, d = n(1), n(2), 3
a, b = b, a
a, b, d = d, a, b
x = [0, 1, 2]
i = n(3)
i, x[i] = 1, 9
R = (a, b, d, i, x)
''',
    "subscript": '''
x = [0, 1, 2, 3]
i = n(1, -2, 5)
R = []
try:
    R.append(x[i])
    x[i] = "new"
    x[0] += 1
    del x[i]
except IndexError:
    R.append("ie")
R.append(x)
d = {1: 2}
try:
    R.append(d[i])
    del d[i]
except KeyError:
    R.append("ke")
R.append(d)
''',
    "slices": '''
x = [0, 1, 2, 3]
i = n(1, -2, 2); j = n(2, -1, 3)
R = [x[:], x[i:], x[:j], x[i:j], x[i:j:2], x[::-1], "abcd"[i:j], (1, 2, 3)[i:]]
y = x[:]
y[i:j] = ["a", "b"]
z = x[:]
del z[i:j]
w = x[:]
w[i:] = []
u = x[:]
del u[:j]
t = x[:]
t[:] = (1,)
s = x[:]
s[::2] = ["p", "q"]
R += [y, z, w, u, t, s]
''',
    "slice-protocol": ('''
class O:
    def __getitem__(self, k): return ev("get", k)
    def __setitem__(self, k, val): ev("set", k, val)
    def __delitem__(self, k): ev("del", k)
o = O()
R = []
try:
    R.append(o[ev(1):ev(2)])
    o[ev(3):ev(4)] = ev(5)
    R.append(o[1, ev(6):2, ...])
    del o[ev(7):]
    o[ev(8):] += ev(9)
    o[:] = 3
except (E1, TypeError):
    R.append("e")
''', F),
    "augmented": ('''
class O:
    def __init__(self): self.a = [1]
    def __getitem__(self, k): return ev("get", k)
    def __setitem__(self, k, val): ev("set", k, val)
o = O()
R = []
try:
    o.a += [ev(1)]
    x = [1]; y = x
    x += [ev(2)]
    o[ev(3)] = ev(4)
    R.append((o.a, x, y, x is y))
except E1:
    R.append("e")
''', F),
    "comprehensions": ('''
R = []
try:
    R.append([ev(x) for x in it(1) if c(2)])
    R.append([(x, y) for x in it(3) for y in (1, 2)])
    R.append([[y for y in it(4)] for x in (1,)])
except E1:
    R.append("e")
''', {"next": (E1,)}),
    "set-dict-comps": ('''
R = []
try:
    R.append({x for x in it(1) if c(2)})
    R.append({x: i for i, x in enumerate(it(3))})
    R.append({k: {x for x in it(4)} for k in (1, 2)})
except E1:
    R.append("e")
''', {"next": (E1,)}, {"lo": (2, 7)}),
    "mixed-const": '''
a = n(1)
R = [(1, 2, 3), [1, 2, 3, 4], a in (0, 1), a in [1], {"a": 1, "b": a, "c": 3}, (1, a, (2, 3))]
for x in (1, 2, a):
    R.append(x)
''',
}


def harnesses():
    hs = []
    for v in ALL + MICRO:
        hs += instr_checks(v)
    hs += any_checks(PROP, ALL)
    return hs + src_checks(ALL, SRC, prefix="src-")
