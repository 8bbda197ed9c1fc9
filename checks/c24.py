"""C24 Python 2 print writes exactly the text Python 2 writes."""
import itertools
import sys

from symx.lib import *  # noqa

PROP = "C24"
ASSUMPTIONS = ["Python 2's rules (ceval.c PRINT_ITEM, PRINT_NEWLINE and PyFile_SoftSpace) are the reference, written in this check",
               "the text of one item is the host's str() of it: differences of str() itself between versions are not covered"]
BOUNDS = ("2.4-2.7 and PyPy 2.7: every sequence of 3 (thorough: 4) print operations on standard output, the program's own "
          "sys.stdout or a second stream; items: 5 kinds of text end, non-strings, objects whose str() may fail; streams: plain, with "
          "a preset softspace, without a settable one, failing on a symbolic write")


class Stream(object):
    def __init__(self, ctx, name):
        self.ctx, self.name = ctx, name

    def write(self, s):
        if s == "":
            return
        self.ctx.event("write", self.name, s)
        if self.ctx.choose(self.ctx._occname("fail " + self.name), [0, 1]) if FAULTS[0] else 0:
            raise E1(self.name)


class Bare(Stream):
    """softspace cannot be set"""
    __slots__ = ("ctx", "name")

    def __setattr__(self, k, v):
        if k == "softspace":
            raise AttributeError(k)
        object.__setattr__(self, k, v)


FAULTS = [False]


class Item(object):
    def __init__(self, ctx):
        self.ctx = ctx

    def __str__(self):
        if self.ctx.choose(self.ctx._occname("str"), ["text", "raise"]) == "raise":
            raise E1("str")
        return "item\n"


def mk(ctx, name, used=True):
    kind = "plain" if not used else ctx.choose("stream " + name, ["plain", "preset", "bare"])
    s = (Bare if kind == "bare" else Stream)(ctx, name)
    if kind == "preset":
        s.softspace = 1
    return s


class Sub(str):
    pass


def items(ctx):
    return {"": "", "a": "a", "nl": "b\n", "tab": "c\t", "sp": "d ", "5": 5, "none": None, "item": Item(ctx), "sub": Sub("e\n"),
            "vt": "\v", "cr": "f\r", "ff": "g\f"}


def soft(s, new):
    old = getattr(s, "softspace", 0)
    try:
        s.softspace = new
    except AttributeError:
        pass
    return old


def py2_item(s, x):
    if soft(s, 0):
        s.write(" ")
    s.write(str(x))
    if not isinstance(x, str) or x == "" or x[-1] not in "\t\n\v\f\r " or x[-1] == " ":
        soft(s, 1)


def py2_newline(s):
    s.write("\n")
    soft(s, 0)


def case(v, ops, redirect, which, faults):
    def fn(ctx):
        FAULTS[0] = faults
        vals = items(ctx)
        names = [ctx.choose("item%d" % i, which) for i, o in enumerate(ops) if o.startswith("ITEM")]
        body, k = [], 0
        if redirect:
            body += ([("LOAD_CONST", K(-1))] if v >= (2, 5) else []) + [("LOAD_CONST", K(None)), ("IMPORT_NAME", N("sys"))]
            body += [("STORE_NAME", N("sys")), ("LOAD_NAME", N("f")), ("LOAD_NAME", N("sys")), ("STORE_ATTR", N("stdout"))]
        for o in ops:
            if o.startswith("ITEM"):
                body.append(("LOAD_NAME", N("x%d" % k)))
                k += 1
            if o.endswith("_TO"):
                body.append(("LOAD_NAME", N("f")))
            if o.endswith("_NONE"):
                body.append(("LOAD_CONST", K(None)))
            body.append(("PRINT_" + o.replace("_NONE", "_TO"),))
        body.append(("LOAD_CONST", K(1)))
        code = program(v, body)

        def go(real):
            def thunk():
                to_f = redirect or any(o.endswith("_TO") for o in ops)
                f = mk(ctx, "f", to_f)
                out = mk(ctx, "stdout", not redirect and any(not o.endswith("_TO") for o in ops))
                if not real:
                    k = 0
                    for o in ops:
                        to = f if o.endswith("_TO") or redirect else out
                        if o.startswith("ITEM"):
                            py2_item(to, vals[names[k]])
                            k += 1
                        else:
                            py2_newline(to)
                else:
                    g = {"__builtins__": builtins_ns(), "__name__": "symx"}
                    l = {"_sentinel": SENT, "f": f}
                    l.update(("x%d" % i, vals[n]) for i, n in enumerate(names))
                    saved, sys.stdout = sys.stdout, out
                    try:
                        execute(v.vm(), code, g, l)
                    finally:
                        sys.stdout = saved
                return [getattr(s, "softspace", 0) for s in (f, out)]
            return ctx.run(thunk)
        ctx.same(go(True), go(False), "printed text")
    return H("%s/%s%s-%s-%s" % (v, "redirected-" if redirect else "", "faults" if faults else "text", which[0] or "e", "-".join(ops)),
             fn, str(v), max_paths=20000, tier="thorough" if len(ops) > 3 else "quick")


OPS = ["ITEM", "NEWLINE", "ITEM_TO", "NEWLINE_TO"]


def harnesses():
    hs = []
    for v in ALL:
        if not v < (3, 0):
            continue
        for n in (1, 2, 3, 4):
            for ops in itertools.product(OPS, repeat=n):
                hs.append(case(v, ops, False, ["", "a", "nl", "sp", "5"], False))
        for ops in itertools.product(OPS, repeat=2):
            hs.append(case(v, ops, False, ["a", "tab", "none", "item", "sub", "vt", "cr", "ff"], False))
            hs.append(case(v, ops, True, ["nl", "a", "sp", "item"], False))
            hs.append(case(v, ops + ("ITEM",), False, ["sp", "nl", "item"], True))
        hs.append(case(v, ("ITEM_NONE", "ITEM", "NEWLINE_NONE", "ITEM"), False, ["5", "nl", "a"], False))
        hs.append(case(v, ("ITEM_NONE", "ITEM", "NEWLINE_NONE"), True, ["5", "nl", "a"], False))
    return hs
