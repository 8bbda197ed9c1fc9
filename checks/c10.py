"""C10 exceptions reach the right handler; finally clauses always run."""
import itertools

from symx.lib import *  # noqa
from symx.anyvalue import any_checks

PROP = "C10"
ASSUMPTIONS = ["source programs are compiled for each version by symx/pyc.py (3.12: the host's own compiler)",
               "the reference is the host Python running the same source"]
BOUNDS = ("all nestings of 1-2 (thorough: 3) constructs out of for, while, try/except in 6 forms, try/finally, "
          "try/except/finally and a function call, around a body with every exit (fall through, return, break, "
          "continue, raise E1/E2) chosen symbolically; every handler, else and finally clause may raise or leave; "
          "18 kinds of raising operation at expression depth <= 3; loops of <= 2 rounds")


def ind(s, n=1):
    return "\n".join("    " * n + l if l else l for l in s.split("\n"))


# name -> (template, makes a loop, new function)
W = {
    "for": '''for i@ in it("i@", 2):
<B>
else:
    ev("else@")''',
    "while": '''k@ = 0
while k@ < 2:
    k@ += 1
<B>
else:
    ev("else@")''',
    "exc": '''try:
<B>
except E1:
    ev("h@")''',
    "exc-as": '''try:
<B>
except (E1, E3) as e@:
    ev("h@", str(e@))''',
    "exc-else": '''try:
<B>
except E2:
    ev("h@")
else:
    ev("o@")''',
    "exc-two": '''try:
<B>
except E1:
    ev("h@")
    if c("x@"): return "handler@"
except E2 as e@:
    ev("g@", str(e@))''',
    "exc-all": '''try:
<B>
except:
    ev("h@")
    if c("x@"): raise''',
    "fin": '''try:
<B>
finally:
    ev("f@")''',
    "exc-fin": '''try:
<B>
except E1:
    ev("h@")
finally:
    ev("f@")''',
    "call": '''def g@():
<B>
    return "g@"
r = g@()
ev("got", r)
if r != "g@": return r''',
}
LOOPS = ("for", "while")


def nest(names):
    body = 'ev("b")\nif c("ret"): return "r"\n'
    inloop = False
    for n in names:
        if n in LOOPS:
            inloop = True
        elif n == "call":
            inloop = False
    if inloop:
        body += 'if c("brk"): break\nif c("cnt"): continue\n'
    body += 'ev("b2")'
    for k, n in reversed(list(enumerate(names))):
        body = W[n].replace("@", str(k)).replace("<B>", ind(body))
    return "def main():\n%s\n    ev(\"end\")\n    return \"end\"\nR = main()\n" % ind(body)


def nests(depth):
    t = {}
    for names in itertools.product(W, repeat=depth):
        if depth > 1 and names[-1] == "call" and names[-2] == "call":
            continue
        faults = {("ev", "b"): (E1, E2), "ev": ()}
        for k, n in enumerate(names):
            for c in "hgfo":
                faults[("ev", "%s%d" % (c, k))] = (E1,) if k else (E2,)
        t["nest-" + "-in-".join(reversed(names))] = (nest(names), faults, {"label": "control flow"})
    return t


SRC = {
    "exit-in-finally": ('''
def main():
    for i in it("x", 2):
        try:
            ev("b")
            if c(1): return "body"
        finally:
            ev("f")
            if c(2): return "finally"
            if c(3): break
    return "end"
R = main()
''', {("ev", "b"): (E1,)}),
    "loop-in-finally": ('''
def main():
    try:
        ev("b")
        if c(1): return "body"
    finally:
        for i in it("x", 2):
            if c(2): continue
            if c(3): break
            ev("f")
    return "end"
R = main()
''', {("ev", "b"): (E1,)}),
    "try-in-finally": ('''
def main():
    try:
        ev("b")
        if c(1): return "body"
    finally:
        try:
            ev("f")
        except E1:
            ev("h")
    return "end"
R = main()
''', {("ev", "b"): (E1, E2), ("ev", "f"): (E1, E2)}),
    "try-in-handler": ('''
def main():
    try:
        ev("b")
    except E1 as e:
        try:
            ev("h")
        except E2 as f:
            ev("hh", str(f))
        ev("after", str(e))
    return "end"
R = main()
''', {("ev", "b"): (E1, E2), ("ev", "h"): (E1, E2), ("ev", "hh"): (E1,)}),
    "loop-in-handler": ('''
def main():
    for k in it("o", 2):
        try:
            ev("b")
        except E1:
            for i in it("x", 2):
                if c(1): break
                if c(2): return "h"
                ev("h")
            else:
                if c(3): continue
            ev("hend")
        ev("tail")
    return "end"
R = main()
''', {("ev", "b"): (E1,), ("ev", "h"): (E2,)}),
    "recursion": ('''
def f(k):
    try:
        if k == 0:
            ev("b")
            return "deep"
        r = f(k - 1)
        ev("after", k)
        return r
    except E1:
        ev("h", k)
        if c("re"): raise
        return "handled%d" % k
    finally:
        ev("f", k)
R = f(2)
''', {("ev", "b"): (E1, E2)}),
    "class-order": ('''
def main():
    try:
        ev("b")
    except E3: return "E3"
    except (E1, E2): return "E12"
    except LookupError: return "Lookup"
    except Exception as e: return type(e).__name__
R = main()
''', {("ev", "b"): (E1, E2, E3, KeyError, ValueError, StopIteration)}),
    "base-exceptions": ('''
def main():
    try:
        try:
            ev("b")
        except Exception:
            return "Exception"
        finally:
            ev("f")
    except (SystemExit, KeyboardInterrupt) as e:
        return type(e).__name__
R = main()
''', {("ev", "b"): (E1, SystemExit, KeyboardInterrupt, GeneratorExit)}),
    "computed-class": ('''
def pick(k):
    ev("pick", k)
    return c("which%d" % k) and E1 or E2
def main():
    try:
        ev("b")
    except pick(1): return "one"
    except pick(2): return "two"
R = main()
''', {("ev", "b"): (E1, E2), ("ev", "pick"): (E3,)}),
    "name-removed": ('''
def main():
    e = "before"
    try:
        ev("b")
    except E1 as e:
        ev("h", str(e))
    try: return e
    except UnboundLocalError: return "ule"
R = main()
''', {("ev", "b"): (E1,)}, {"lo": (3, 0)}),
    "unwind-exprs": ('''
def main():
    r = []
    for i in it("x", 2):
        for j in (1, 2):
            try:
                r.append((i, j, [1, 2, ev("d"), {3: ev("e")}]))
            except E1:
                r.append(("h", i, j))
    return r
R = main()
''', {("ev", "d"): (E1, E2), ("ev", "e"): (E1,)}),
    "module-level": ('''
R = []
for i in it("x", 2):
    try:
        ev("b")
        if c(1): continue
        R.append("body")
    except E1:
        R.append("h")
        if c(2): break
    finally:
        R.append("f")
else:
    R.append("else")
''', {("ev", "b"): (E1, E2)}),
    "class-body": ('''
R = []
try:
    class A:
        try:
            ev("b")
            x = 1
        except E1:
            x = 2
        finally:
            y = 3
    R = [A.x, A.y]
except E2:
    R = "out"
''', {("ev", "b"): (E1, E2)}),
    "context": ('''
import sys
def inner():
    try:
        ev("i")
    except E2:
        return str(sys.exc_info()[1])
    return "none"
def main():
    try:
        ev("b")
    except E1:
        a = str(sys.exc_info()[1])
        b = inner()
        return (a, b, str(sys.exc_info()[1]), sys.exc_info()[0].__name__)
R = main()
''', {("ev", "b"): (E1,), ("ev", "i"): (E2,)}, {"lo": (3, 0)}),
    "handled-is-forgotten": ('''
import sys
def main():
    try:
        ev("b")
    except E1:
        ev("h")
    return sys.exc_info()[1] is None
R = main()
''', {("ev", "b"): (E1,)}, {"lo": (3, 0)}),
    "catch-in-caller": ('''
def thrower():
    try:
        ev("b")
    finally:
        ev("f")
def middle():
    thrower()
    ev("not reached on error")
def main():
    try:
        middle()
    except E1 as e:
        return str(e)
R = main()
''', {("ev", "b"): (E1, E2), ("ev", "f"): (E2,)}),
    "through-host": ('''
def key(x):
    ev("key", x)
    return x
def main():
    try:
        return sorted([2, 1], key=key)
    except E1 as e:
        return str(e)
R = main()
''', {"ev": (E1, E2)}),
    "lambda-comprehension": ('''
def main():
    try:
        return [(lambda q: ev("l", q))(x) for x in it("x", 2)]
    except E1:
        return "h"
    finally:
        ev("f")
R = main()
''', {("ev", "l"): (E1, E2), ("next", "x"): (E1,)}),
}

# one raising operation each: code, class it raises
OPS = {
    "name": ("nothing_here", "NameError"), "attr": ("(1).nope", "AttributeError"),
    "item": ("[][0]", "IndexError"), "key": ("{}['k']", "KeyError"), "binop": ("1 % 0", "ZeroDivisionError"),
    "mixed": ("1 + 'a'", "TypeError"), "unary": ("-'a'", "TypeError"), "call": ("(1)(2)", "TypeError"),
    "args": ("len()", "TypeError"), "host": ("int('x')", "ValueError"), "compare-in": ("1 in 2", "TypeError"),
    "iter": ("[x for x in 3]", "TypeError"), "slice": ("(1)[0:1]", "TypeError"), "hash": ("{[]: 1}", "TypeError"),
    "kwcall": ("len(x=1)", "TypeError"), "star": ("len(*3)", "TypeError"), "func": ("boom()", "KeyError"),
    "argcount": ("boom(1)", "TypeError"),
}
STMTS = {
    "unpack": ("a, b = (1,)", "ValueError"), "setattr": ("(1).x = 2", "AttributeError"),
    "setitem": ("(1, 2)[0] = 3", "TypeError"), "delitem": ("del {}['k']", "KeyError"),
    "delattr": ("del (1).x", "AttributeError"), "iadd": ("q = 1; q += 'a'", "TypeError"),
    "for": ("for z in 4: pass", "TypeError"), "raise": ("raise KeyError('k')", "KeyError"),
    "import": ("import no_such_module_xyz", "ImportError"), "from": ("from sys import nope_nope", "ImportError"),
    "assert": ("assert q0 == 2", "AssertionError"), "class": ("class A(3, 4): pass", "TypeError"),
    "delname": ("del unbound_name", "UnboundLocalError"),
}


def ops():
    t = {}
    for n, (code, exc) in OPS.items():
        t["op-" + n] = '''
def boom(): raise KeyError("boom")
def main():
    r = []
    for i in it("x", 2):
        try:
            if c(1): r.append([1, (2, %s)])
            else: r.append("ok")
        except %s:
            r.append("caught")
        finally:
            r.append("f")
    return r
R = main()
''' % (code, exc)
    for n, (code, exc) in STMTS.items():
        if "; " in code:
            a, code = code.split("; ")
        else:
            a = "q = 1"
        t["stmt-" + n] = '''
def main():
    r = []
    q0 = 1
    for i in it("x", 2):
        try:
            if c(1):
                %s
                %s
            r.append("ok")
        except %s:
            r.append("caught")
        finally:
            r.append("f")
    return r
R = main()
''' % (a, code, exc)
    return t


def harnesses():
    hs = src_checks(ALL, SRC)
    hs += src_checks(ALL, ops())
    hs += src_checks(ALL, nests(1))
    hs += src_checks(ALL, nests(2), max_paths=1500)

    deep = nests(3)
    keep = {}
    for n, t in deep.items():
        keep[n] = t
    hs += src_checks([v for v in ALL if v.name in ("2.7", "3.7", "3.8", "3.10", "3.11", "3.12")], keep, tier="thorough")
    hs += any_checks(PROP, ALL)
    return hs
