"""C22 formatted strings apply the written conversion and format specification."""
from symx.lib import *  # noqa
from symx.anyvalue import any_checks

PROP = "C22"
ASSUMPTIONS = ["the reference is the host's format(), str(), repr() and ascii() on the same values, and the host's f-strings"]
BOUNDS = ("instruction level: all 8 flag combinations, a value whose __format__/__str__/__repr__ is symbolically present and may "
          "give text, a non-string or raise, 10 plain values x 7 specifications, 0-5 joined pieces; source level: 20 f-strings")


class V(object):
    """A value with recorded, failing conversions."""

    def __init__(self, env, name):
        self.env, self.name = env, name

    def _step(self, what, *a):
        ctx = self.env.ctx
        ctx.event(what, self.name, *a)
        how = ctx.choose(ctx._occname("%s %s" % (what, self.name)), ["text", "other", "raise"])
        if how == "raise":
            raise E1("%s %s" % (what, self.name))
        return 5 if how == "other" else "<%s %s%s é>" % (what, self.name, "".join(map(str, a)))

    def __str__(self):
        return self._step("str")

    def __repr__(self):
        return self._step("repr")


class VF(V):
    def __format__(self, spec):
        return self._step("format", spec)


class S(str):
    """A string with its own conversions"""

    def __str__(self):
        return "S.__str__"

    def __repr__(self):
        return "S.__repr__ é"

    def __format__(self, spec):
        return "S.__format__ %s" % spec


PLAIN = {"int": 42, "float": 3.5, "str": "tést", "quote": "a'b\n", "none": None, "true": True, "bytes": b"x", "S": S("s"),
         "list": ["é"], "type": int}
SPECS = {"none": None, "empty": "", "width": "5", "right": ">8", "hex": "x", "bad": "zz9", "float": ".2f", "blank": " ",
         "blanks": " x ", "sign": " d", "fill": " >6", "zero": "0", "percent": "%", "tab": "\t^9"}


def pick(ctx):
    k = ctx.choose("value", list(PLAIN) + ["V", "VF"])
    if k in PLAIN:
        return PLAIN[k]
    return (V if k == "V" else VF)(Env(ctx), "v")


def instruction(v):
    def fn(ctx):
        flags = int(ctx.int("flags", 0, 7))
        val = pick(ctx)
        spec = SPECS[ctx.choose("spec", [s for s in SPECS if (s != "none") == bool(flags & 4)])]
        code = program(v, [("FORMAT_VALUE", flags)], ["a", "s"] if flags & 4 else ["a"])
        env = {"a": val, "s": spec}
        got = run_program(ctx, v, code, env)

        def want():
            x = [lambda x: x, str, repr, ascii][flags & 3](val)
            return (format(x, spec if flags & 4 else ""),)
        ctx.same(got, ref(ctx, want), "field")
    return H("%s/FORMAT_VALUE" % v, fn, str(v), max_paths=3000)


def join(v, n):
    def fn(ctx):
        parts = [ctx.choose("p%d" % i, ["", "a", "é", S("sub")]) for i in range(n)]
        code = program(v, [("BUILD_STRING", n)], ["p%d" % i for i in range(n)])
        got = run_program(ctx, v, code, {"p%d" % i: p for i, p in enumerate(parts)})
        want = ref(ctx, lambda: ("".join(parts),))
        ctx.same(got, want, "joined")
        if n != 1:      # one piece is never joined by a compiler
            ctx.ok(got.kind != "ret" or type(got.value[0]) is str, "a string", "%s" % (got,))
    return H("%s/BUILD_STRING-%d" % (v, n), fn, str(v), max_paths=3000)


ANY = (E1, E2)
FSTR = {
    "plain": 'R = f"{a}"',
    "str": 'R = f"{a!s}"',
    "repr": 'R = f"{a!r}"',
    "ascii": 'R = f"{a!a}"',
    "spec": 'R = f"{a:>8}"',
    "spec-hex": 'R = f"{a:x}"',
    "repr-spec": 'R = f"{a!r:*^12}"',
    "str-spec": 'R = f"[{a!s:9}]"',
    "ascii-spec": 'R = f"[{a!a:9}]"',
    "text": 'R = f"x{a}y{b}z"',
    "adjacent": 'R = f"{a}{b!r}"',
    "braces": 'R = f"{{{a}}}{{}}"',
    "no-fields": 'R = f"abc" f"" "d"',
    "concatenated": 'R = "p" f"{a}" "q" f"{b!s}"',
    "nested-spec": 'R = f"{n:{w}}"',
    "nested-specs": 'R = f"{n:{w}.{p}f}|{n!r:{w}}"',
    "order": ('R = f"{ev(1)}-{ev(2)!r:{ev(3)}}-{ev(4)}"', {"ev": ANY}),
    "faults": ('def f():\n    try:\n        return f"{ev(1)}{a!r}{ev(2)}"\n    except E1:\n        return f"E1 {b!s}"\nR = f()\n', {"ev": ANY}),
    "expressions": 'R = f"{1 + 2} {[1, 2][0]} {(lambda: 3)()} {a if c(1) else b} {c(2) and 5:3}"',
    "closure": 'def f(x):\n    def g(y): return f"{x}{y!r}{x!s:>{w}}"\n    return g\nR = f(a)(5)\n',
    "self-documenting": ('R = f"{a=} {b=!s} {n=:5}"', None, {"lo": (3, 8)}),
    "inner": 'R = f"{f\'{a}\':>{w}}{f\'{b!r}\'}"',
    "loop": 'R = []\nfor i in it("x", 2):\n    R.append(f"{i!r}:{i[1]:{w}}")\n',
}


def values(env):
    ctx = env.ctx
    def val(name):
        k = ctx.choose("kind " + name, ["int", "str", "S", "V", "VF"])
        return PLAIN[k] if k in PLAIN else (V if k == "V" else VF)(env, name)
    a, b = val("a"), None
    ns = {"a": a, "n": 3.25, "w": ctx.choose("w", [6, "10", ""]), "p": 1}
    ns["b"] = VF(env, "b")
    return ns


def harnesses():
    hs = []
    for v in ALL:
        if v.has("FORMAT_VALUE"):
            hs.append(instruction(v))
            hs += [join(v, n) for n in range(6 if v.name == "3.12" else 4)]
    hs += src_checks(ALL, {k: tuple([t + "\n"]) if isinstance(t, str) else (t[0] + "\n",) + t[1:] for k, t in FSTR.items()}, prefix="f-", extra=values, label="string")
    hs += any_checks(PROP, ALL)
    return hs
