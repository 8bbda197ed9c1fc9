"""C17 the current line number is always the line of the instruction being executed."""
import copy
import re

from symx.asm import linetable_311
from symx.lib import *  # noqa

PROP = "C17"
ASSUMPTIONS = ["xdis decodes the line table of a code object (byte tables in the last group of harnesses are decoded by this check too)"]
BOUNDS = ("every version; %d program shapes; 4 patterns of which instructions start a line, the line numbers themselves symbolic integers; "
          "byte-encoded tables of 3 entries with symbolic distances")


# the same failures by a raise statement of the program
def raising(fails):
    out = dict(fails)
    for n, src in fails.items():
        if "fail(" in src:
            out["raise-" + n] = re.sub(r"fail\((\w)\)", r"raise mk(\1)", src)
    return out


def walk(code):
    yield code
    for c in code.co_consts:
        if hasattr(c, "co_code"):
            yield from walk(c)


def starts(v, code):
    """Offsets of the instructions of a code object, without prefixes and caches."""
    if not hasattr(code, "asm"):
        import dis
        return [i.offset for i in dis.get_instructions(code) if i.opname != "EXTENDED_ARG"]
    return [o for n, o in code.asm.offsets if n not in ("CACHE",)]


def entry(table, offset, first):
    """The line a table {offset: line} assigns to an offset."""
    line = first
    for o in sorted(table):
        if o > offset:
            break
        line = table[o]
    return line


class Lines:
    """co_lines() of 3.10+"""

    def __init__(self, table, size):
        self.table, self.size = table, size

    def __call__(self):
        offs = sorted(self.table)
        for o, e in zip(offs, offs[1:] + [self.size]):
            yield o, e, self.table[o]


def retable(ctx, v, code, pattern, tables):
    """A copy of code and of the code in it, with symbolic line tables."""
    offs = starts(v, code)
    n = len(tables)
    pick = {"all": offs, "first": offs[:1], "even": offs[::2], "third": offs[:1] + offs[2::3]}[pattern]
    if not hasattr(code, "asm"):
        # a code object of the host: its table is in bytes
        up = ctx.choose("numbering", [3, -2, 200, 0])
        table = {o: 5000 + (up * i if up else 40 * (i % 3)) for i, o in enumerate(pick)}
        code = code.replace(co_firstlineno=7, co_linetable=linetable_311(table, 7, len(code.co_code)), co_consts=tuple(
            retable(ctx, v, c, pattern, tables) if hasattr(c, "co_code") else c for c in code.co_consts))
        tables.append((code, table))
        return code
    code = copy.copy(code)
    if len(pick) > 12:
        table = {o: 100 + 7 * i for i, o in enumerate(pick)}
    else:
        table = {o: ctx.int("line%d.%d" % (n, o), 1, 100000) for o in pick}
        for a, b in zip(pick, pick[1:]):
            ctx.assume(table[a] != table[b])
    code.co_firstlineno = 7
    tables.append((code, table))
    if v >= (3, 10):
        code.co_lines = Lines(table, len(code.co_code))
        code.co_linetable = b""
    else:
        code.co_lnotab = table
    code.co_consts = tuple(retable(ctx, v, c, pattern, tables) if hasattr(c, "co_code") else c for c in code.co_consts)
    return code


KINDS = {"call": ("CALL", "PRECALL"), "next": ("FOR_ITER",), "bool": ("POP_JUMP", "JUMP_IF", "UNARY_NOT", "TO_BOOL"), "getattr": ("LOAD_ATTR", "LOAD_METHOD"),
         "add": ("BINARY_",), "enter": ("SETUP_WITH", "WITH_", "BEFORE_WITH", "CALL"), "exit": ("WITH_", "END_FINALLY", "CALL", "POP_BLOCK"),
         "getitem": ("BINARY_SUBSCR",)}


class Probe:
    """Looks at the interpreter's frames whenever the program executes one of these."""

    def __init__(self, ctx, v, vm, tables):
        self.ctx, self.v, self.vm, self.tables, self.seen = ctx, v, vm, tables, 0

    def check(self, kind, frames=None):
        frames = frames or list(self.vm.frames)
        self.seen += 1
        op = self.v.opc.opname[frames[-1].f_code.co_code[frames[-1].f_lasti]]
        self.ctx.ok(op.startswith(KINDS[kind]), "instruction", lambda: "%s executes %s" % (kind, op))
        for i, f in enumerate(reversed(frames)):
            want = self.line(f.f_code, f.f_lasti)
            what = "%s, %d calls up, offset %s" % (kind, i, f.f_lasti)
            self.ctx.ok(f.f_lineno is want or f.f_lineno == want, "f_lineno", lambda: "%s: f_lineno is %s, the table has %s" % (what, f.f_lineno, want))
            num = f.line_number()
            self.ctx.ok(num is want or num == want, "line_number()", lambda: "%s: %s, the table has %s" % (what, f.line_number(), want))

    def line(self, code, offset):
        return entry([t for c, t in self.tables if c is code or (c.co_name, c.co_code) == (code.co_name, code.co_code)][0], offset, code.co_firstlineno)

    def p(self, *a):
        self.check("call")
        return a[0] if a else None

    def obj(self):
        me = self

        class O(object):
            left = 3

            def __bool__(self):
                me.check("bool")
                return me.ctx.bool(me.ctx._occname("true"))

            def __iter__(self):
                return self

            def __next__(self):
                me.check("next")
                if self.left and me.ctx.bool(me.ctx._occname("more")):
                    type(self).left -= 1
                    return 1
                raise StopIteration
            next = __next__

            def __getattr__(self, name):
                if name.startswith("__"):
                    raise AttributeError(name)
                me.check("getattr")
                return name

            def __add__(self, o):
                me.check("add")
                return self

            def __getitem__(self, i):
                me.check("getitem")
                return i

            def __enter__(self):
                me.check("enter")
                return self

            def __exit__(self, *a):
                me.check("exit")
                return True

        return O()

    def fail(self, *a):
        self.check("call")
        self.failed = [(f.f_code, f.f_lasti) for f in self.vm.frames]
        raise E1("fail")

    def mk(self, *a):
        self.check("call")
        self.failed = [(f.f_code, f.f_lasti) for f in self.vm.frames]
        return E1("made")


SHAPES = {
    "straight": "p()\nx = o + 1\np(x)\n",
    "if": "if o:\n    p(1)\nelse:\n    p(2)\np(3)\n",
    "while": "x = 0\nwhile o:\n    p(1)\n    x = x + 1\n    if x == 2:\n        break\n    p(2)\np(3)\n",
    "for": "for x in o:\n    p(x)\np(3)\n",
    "for-continue": "for x in (1, 2, 3):\n    if x == 2:\n        continue\n    p(x)\np(3)\n",
    "for-else": "for x in o:\n    if o:\n        break\nelse:\n    p(1)\np(2)\n",
    "nested-loops": "for x in (1, 2):\n    for y in o:\n        p(y)\n    p(x)\np(3)\n",
    "and-or": "x = o and p(1) or p(2)\np(3)\n",
    "ifexp": "x = p(1) if o else p(2)\np(3)\n",
    "try": "try:\n    p(1)\n    fail(2)\n    p(3)\nexcept E1:\n    p(4)\np(5)\n",
    "try-finally": "try:\n    if o:\n        fail(2)\n    p(1)\nexcept E1:\n    p(2)\nfinally:\n    p(3)\np(4)\n",
    "call": "def f(x):\n    p(x)\n    return o[x]\np(f(p(1)))\nf(2)\n",
    "call-in-loop": "def f(x):\n    for i in (1, 2):\n        p(i)\n    return x\nfor k in o:\n    f(k)\n    p(k)\n",
    "recursion": "def f(x):\n    if x:\n        f(x - 1)\n    p(x)\nf(2)\n",
    "generator": "def g():\n    p(1)\n    yield 1\n    p(2)\n    yield 2\n    p(3)\nfor x in g():\n    p(x)\np(4)\n",
    "generator-loop": "def g():\n    for i in o:\n        yield i\n    p(1)\nfor x in g():\n    p(x)\n",
    "with": "with o:\n    p(1)\np(2)\n",
    "with-fail": "with o:\n    p(1)\n    fail(1)\np(2)\n",
    "class": "class A(object):\n    x = p(1)\n    def m(self):\n        return p(2)\np(A().m())\n",
    "attr": "o.a\nfor i in (1, 2):\n    o.b\np(1)\n",
    "wide": "x = 0\n" + "".join("v%d = %d\n" % (i, i + 1000) for i in range(260)) + "for i in (1, 2):\n    p(v259)\n    v250\np(v258)\n",
}
FAILS = {
    "straight": "p(1)\nfail(2)\n",
    "calls": "def f(x):\n    p(x)\n    fail(x)\ndef g(x):\n    for i in (1, 2):\n        if i == 2:\n            f(x)\n    p(3)\ng(1)\n",
    "caught-then": "def f(x):\n    fail(x)\ntry:\n    f(1)\nexcept E1:\n    p(1)\nf(2)\n",
    "finally": "def f(x):\n    try:\n        fail(x)\n    finally:\n        p(2)\nf(1)\n",
    "generator": "def g():\n    yield 1\n    fail(1)\nfor x in g():\n    p(x)\n",
    "next": "def f():\n    for x in (1, 2):\n        p(x)\n        undefined_name\nf()\n",
    "finally-in-caller": "def f(x):\n    fail(x)\ndef g(x):\n    try:\n        f(x)\n    finally:\n        p(1)\n        p(2)\nif o:\n    p(3)\ng(1)\n",
    "with-in-caller": "def f(x):\n    fail(x)\ndef g(x):\n    with q:\n        f(x)\n    p(1)\nfor i in (1,):\n    g(1)\n",
    "reraised-by-caller": "def f(x):\n    fail(x)\ndef g(x):\n    try:\n        f(x)\n    except E1:\n        p(1)\n        raise\ng(1)\n",
    "handled-elsewhere": "def f(x):\n    try:\n        fail(x)\n    except KeyError:\n        p(1)\n    else:\n        p(2)\ndef g(x):\n    try:\n        f(x)\n    except ValueError:\n        p(3)\ng(1)\n",
    "finally-twice": "def f(x):\n    try:\n        fail(x)\n    finally:\n        p(0)\ndef g(x):\n    try:\n        try:\n            f(x)\n        finally:\n            p(1)\n    finally:\n        p(2)\ng(1)\n",
    "in-handler": "def f(x):\n    fail(x)\ntry:\n    f(1)\nexcept E1:\n    if o:\n        f(2)\n    fail(3)\n",
}


FAILS = raising(FAILS)


class Passing:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


def setup(ctx, v, src):
    tables = []
    code = retable(ctx, v, compiled(v, src), ctx.choose("pattern", ["all", "first", "even", "third"]), tables)
    vm = v.vm()
    probe = Probe(ctx, v, vm, tables)
    ns = Env(ctx).ns()
    ns.update(p=probe.p, o=probe.obj(), fail=probe.fail, mk=probe.mk, q=Passing())
    return code, vm, probe, ns


def case(v, name):
    src = SHAPES[name]

    def fn(ctx):
        code, vm, probe, ns = setup(ctx, v, src)
        got = ctx.run(lambda: execute(vm, code, ns, ns))
        ctx.ok(got.kind == "ret", "the program ran", lambda: str(got))
        ctx.ok(probe.seen > 0, "probed")
    return H("%s/%s" % (v, name), fn, str(v), max_paths=4000)


def failing(v, name):
    """The traceback of an uncaught exception lists the active calls with their lines."""
    src = FAILS[name]
    want = {"straight": ["<module>"], "calls": ["<module>", "g", "f"], "caught-then": ["<module>", "f"], "finally": ["<module>", "f"],
            "generator": ["<module>", "g"], "next": ["<module>", "f"], "in-handler": None}.get(name.replace("raise-", ""), ["<module>", "g", "f"])

    def fn(ctx):
        code, vm, probe, ns = setup(ctx, v, src)
        got = ctx.run(lambda: execute(vm, code, ns, ns))
        ctx.ok(got.kind == "exc", "the program failed", lambda: str(got))
        tb, chain = vm.last_traceback, []
        while tb is not None and len(chain) < 20:
            chain.append(tb)
            tb = tb.tb_next
        names = [t.tb_frame.f_code.co_name for t in chain]
        ctx.ok(want is None or names[1:] == want[1:] and len(names) == len(want), "the calls in the traceback", lambda: "%s instead of %s" % (names, want))
        if name != "next":
            at = [(t.tb_frame.f_code, t.tb_lasti) for t in chain]
            if name.startswith("raise-"):       # the instruction after the call of mk()
                probe.failed[-1] = at[-1] if at[-1][0] is probe.failed[-1][0] and at[-1][1] > probe.failed[-1][1] else None
            ctx.ok(at == probe.failed, "where the calls were", lambda: "%s, but were at %s" % (
                [(t.tb_frame.f_code.co_name, t.tb_lasti) for t in chain], probe.failed))
        for t in chain:
            line = probe.line(t.tb_frame.f_code, t.tb_lasti)
            ctx.ok(t.tb_lineno == line, "tb_lineno", lambda: "in %s at %s: %s, the table has %s" % (t.tb_frame.f_code.co_name, t.tb_lasti, t.tb_lineno, line))
            ctx.ok(t.tb_frame.line_number() == line, "line shown", lambda: "%s, the table has %s" % (t.tb_frame.line_number(), line))
    return H("%s/traceback-%s" % (v, name), fn, str(v), max_paths=4000)


def lnotab(v, entries):
    out = []
    for da, dl in entries:
        while da > 255:
            out += [255, 0]
            da -= 255
        while dl > 127:
            out += [da, 127]
            da, dl = 0, dl - 127
        while dl < -128:
            out += [da, 128]
            da, dl = 0, dl + 128
        out += [da, dl & 255]
    return bytes(out)


def encoded(v):
    """Byte tables (lnotab), decoded here."""
    src = "for x in (1, 2):\n    p(x)\n    p(3)\n" + "p(4)\n" * 3

    def fn(ctx):
        code = copy.copy(compiled(v, src))
        offs = starts(v, code)
        tables, table, entries = [], {0: 7}, []
        addr, line = 0, 7
        for i in range(3):
            o = offs[ctx.choose("step%d" % i, [0, 1, 2, 5]) + (offs.index(addr) if i else 0)]
            d = ctx.choose("delta%d" % i, [0, 1, 127, 300] + ([-1, -6] if v >= (3, 6) else []))
            entries.append((o - addr, d))
            addr, line = o, line + d
            table[addr] = line
        code.co_firstlineno, code.co_lnotab = 7, lnotab(v, entries)
        vm = v.vm()
        tables.append((code, table))
        probe = Probe(ctx, v, vm, tables)
        ns = Env(ctx).ns()
        ns.update(p=probe.p, o=probe.obj(), fail=probe.fail)
        got = ctx.run(lambda: execute(vm, code, ns, ns))
        ctx.ok(got.kind == "ret", "the program ran", lambda: str(got))
    return H("%s/encoded" % v, fn, str(v), max_paths=20000)


def harnesses():
    hs = []
    for v in ALL:
        hs += [case(v, n) for n in SHAPES if supported(v, SHAPES[n])]
        hs += [failing(v, n) for n in FAILS if supported(v, FAILS[n])]
        if v < (3, 10):
            hs.append(encoded(v))
    return hs


BOUNDS = BOUNDS % (len(SHAPES) + len(FAILS))
