"""C13 generators obey the generator protocol over any sequence of resumptions."""
from symx.lib import *  # noqa
from symx.anyvalue import any_checks

PROP = "C13"
ASSUMPTIONS = ["source programs are compiled for each version by symx/pyc.py (3.12: the host's own compiler)",
               "the reference is the host Python running the same generators through the same history",
               "what a generator does with StopIteration raised in its body is compared from 3.7 on (PEP 479)"]
BOUNDS = ("every history of 3 resumptions of one generator, each one of next(), send(value), a for loop left at once, or "
          "list(); of 3 of two generators interleaved; of 5 next() (thorough: 6 of one, 5 of two), over 29 generator bodies whose own branches "
          "and faults are symbolic")

DRIVE = '''
def drive(gs, steps):
    r = []
    for s in steps:
        w, k = step(s, len(gs))
        g = gs[w]
        try:
            if k == 0: v = next(g)
            elif k == 1: v = g.send(None)
            elif k == 2: v = g.send("s%d" % s)
            elif k == 3: v = list(g)
            else:
                v = None
                for v in g: break
            r.append((w, v))
        except StopIteration as e:
            r.append((w, "stop", val(e)))
        except E1 as e:
            r.append((w, "E1", str(e)))
        except E3 as e:
            r.append((w, "E3", str(e)))
        except TypeError:
            r.append((w, "TypeError"))
        except RuntimeError:
            r.append((w, "RuntimeError"))
        except ValueError:
            r.append((w, "ValueError"))
    return r
'''

# name -> (body, faults, options)
GENS = {
    "plain": '''
def gen(k):
    yield (k, 1)
    yield (k, 2)
''',
    "empty": '''
def gen(k):
    ev("start", k)
    if k == "zz": yield 1
''',
    "branch": '''
def gen(k):
    if c("b" + k):
        yield "then"
    else:
        for i in it("i" + k, 2):
            if c("skip" + k): continue
            yield i
    ev("end", k)
''',
    "state": '''
def gen(k):
    x = 0
    while x < 3:
        x += 1
        y = [x, (yield x), k]
        ev("after", *y)
''',
    "received": ('''
def gen(k):
    got = []
    while len(got) < 3:
        got.append((yield tuple(got)))
''', None, {"lo": (2, 5)}),
    "yield-in-expression": ('''
def gen(k):
    r = [1, (yield "a"), {2: (yield "b")}]
    yield r
''', None, {"lo": (2, 5)}),
    "yield-in-call": ('''
def gen(k):
    r = ev("x", (yield "a"), (yield "b"))
    yield r
''', {"ev": (E1,)}, {"lo": (2, 5)}),
    "return-value": ('''
def gen(k):
    x = yield 1
    if c("early" + k): return ("early", x)
    yield 2
    return "late"
''', None, {"lo": (3, 3)}),
    "raises": ('''
def gen(k):
    yield 1
    ev("b", k)
    yield 2
''', {("ev", "b"): (E1, KeyError)}, {}),
    "try-except": ('''
def gen(k):
    for i in (1, 2):
        try:
            yield i
            ev("b", k)
        except E1:
            yield "h"
        else:
            yield "e"
''', {("ev", "b"): (E1, E3)}, {}),
    "try-finally": ('''
def gen(k):
    try:
        yield 1
        ev("b", k)
        yield 2
    finally:
        ev("f", k)
''', {("ev", "b"): (E1,)}, {"lo": (2, 5)}),
    "yield-in-finally": ('''
def gen(k):
    try:
        yield 1
        ev("b", k)
    finally:
        yield "f"
        ev("f2", k)
    yield "after"
''', {("ev", "b"): (E1,)}, {"lo": (2, 5)}),
    "yield-in-handler": ('''
import sys
def gen(k):
    try:
        ev("b", k)
    except E1:
        yield str(sys.exc_info()[1])
        yield str(sys.exc_info()[1])
        if c("re" + k): raise
    yield sys.exc_info()[1] is None
''', {("ev", "b"): (E1,)}, {"lo": (3, 0)}),
    "with": ('''
def gen(k):
    with cm("m" + k) as x:
        yield x
        ev("b", k)
        yield 2
    yield 3
''', {("ev", "b"): (E1,)}, {"lo": (2, 5)}),
    "nested-for": '''
def inner(k):
    for i in it("n" + k, 2):
        yield i
def gen(k):
    for x in inner(k):
        yield x
        if c("stop" + k): return
    yield "end"
''',
    "recursive": '''
def tree(n, k):
    if n:
        for x in tree(n - 1, k): yield x
        yield n
        if c("right" + k):
            for x in tree(n - 1, k): yield x
def gen(k):
    return tree(2, k)
''',
    "closure": '''
def gen(k):
    n = [0]
    def bump():
        n[0] += 1
        return n[0]
    def g():
        yield bump()
        yield bump()
        yield n[0] + bump()
    return g()
''',
    "shared": '''
shared = []
def gen(k):
    shared.append(k)
    yield tuple(shared)
    shared.append(k)
    yield tuple(shared)
''',
    "genexp": '''
def gen(k):
    return ((k, x, y) for x in it("x" + k, 2) if c("keep" + k) for y in (1, 2))
''',
    "handled-by-caller": ('''
def gen(k):
    try:
        for x in (1, 2):
            try:
                ev("b", k)
                yield x
            except E1:
                ev("h", k)
    except E3:
        yield "outer"
''', {("ev", "b"): (E1, E3), ("ev", "h"): (E3,)}, {}),
    "yield-from": ('''
def inner(k):
    a = yield "i1"
    b = yield ("i2", a)
    return (a, b)
def gen(k):
    r = yield from inner(k)
    yield ("got", r)
''', None, {"lo": (3, 3)}),
    "yield-from-list": ('''
def gen(k):
    r = yield from it("y" + k, 2)
    yield r
    yield from ()
    yield from "ab"
''', {"next": (E1,)}, {"lo": (3, 3)}),
    "yield-from-deep": ('''
def leaf(k):
    x = yield 1
    ev("b", k)
    return x
def mid(k):
    try:
        r = yield from leaf(k)
    except E1:
        r = yield "caught"
    return [r]
def gen(k):
    yield (yield from mid(k))
''', {("ev", "b"): (E1, E3)}, {"lo": (3, 3)}),
    "reentrant": '''
me = {}
def gen(k):
    yield 1
    if c("self" + k):
        try: yield next(me["g"])
        except ValueError: yield "busy"
    yield 2
''',
    "stop-iteration": ('''
def gen(k):
    yield 1
    if c("si" + k): next(iter([]))
    if c("raise" + k): raise StopIteration("v")
    yield 2
''', None, {"lo": (3, 7)}),
    "star-args": '''
def gen(k, *a, **b):
    yield a
    yield b
    yield k
''',
    "method": '''
class A(object):
    def __init__(self, k): self.k = k
    def items(self):
        yield self.k
        self.k = self.k + "!"
        yield self.k
def gen(k):
    return A(k).items()
''',
    "iterator-class": '''
class A(object):
    def __init__(self, k): self.k = k
    def __iter__(self):
        yield self.k
        for x in it("a" + self.k, 1): yield x
def gen(k):
    return iter(A(k))
''',
}

# consumers of a generator inside the program
USES = {
    "list-nest": ('''
def a(n):
    for i in range(n): yield i
R = [x + y for x in a(n(1)) for y in a(n(2))]
''',),
    "unpack": ('''
def g():
    yield 1
    if c(1): yield 2
    if c(2): yield 3
try:
    x, y = g()
    R = (x, y)
except ValueError:
    R = "ve"
''',),
    "zip-two": ('''
def g(k):
    for i in it(k, 2): yield (k, i)
R = list(zip(g("a"), g("b")))
''',),
    "any-all": ('''
R = (any(c(i) for i in (1, 2)), all(c(i) for i in (3, 4)), sum(n(i) for i in (5, 6)))
''',),
    "sorted-max": ('''
def g():
    yield 3
    yield n(1)
    yield 2
R = (sorted(g()), max(g()), list(map(lambda x: x + 1, g())), dict((x, 1) for x in g()))
''',),
    "loop-break-resume": ('''
def g():
    for i in it("i", 3): yield i
def main():
    x = g()
    r = []
    for v in x:
        r.append(v)
        if c(1): break
    for v in x:
        r.append(("again", v))
    return r
R = main()
''',),
    "exception-out": ('''
def g():
    yield 1
    ev("b")
    yield 2
def main():
    r = []
    x = g()
    try:
        for v in x: r.append(v)
    except E1:
        r.append("h")
    r.extend(x)
    return r
R = main()
''', {"ev": (E1,)}),
    "in-is": ('''
def g():
    yield 1
    ev("y")
    yield 2
x = g()
R = (n(1) in x, list(x))
''',),
    "passed-around": ('''
def g():
    r = yield 1
    ev("got", r)
    yield 2
def use(x): return next(x)
x = g()
R = [use(x), [use(x)], next(x, "default")]
''', None, {"lo": (2, 5)}),
}


KEEP = []     # an unfinished host generator is never collected: that would resume it


def history(v, name, src, faults, steps, ngens, ops, tier="quick"):
    src = src + DRIVE + "R = None\ngs = [gen(k) for k in %r]\nkeep(gs)\n%sR = drive(gs, %r)\n" % (
        ("a", "b")[:ngens], "me['g'] = gs[0]\n" if name == "reentrant" else "", tuple(range(steps)))

    def extra(env):
        return {"keep": KEEP.append, "step": lambda s, n: (env.ctx.choose("which%d" % s, list(range(n))), env.ctx.choose("op%d" % s, ops)),
                "val": lambda e: e.value if v >= (3, 3) else None}
    return src_check(v, "%s-%dx%d" % (name, ngens, steps), src, faults, extra=extra, tier=tier, max_paths=6000,
                     label="history", weight=3)


MISSING = {
    "throw": ('''
def gen():
    try:
        yield 1
    except E1:
        yield "caught"
g = gen()
next(g)
R = g.throw(E1("t"))
''',),
    "close": ('''
def gen():
    try:
        yield 1
    finally:
        ev("f")
g = gen()
next(g)
R = g.close()
''',),
}


def harnesses():
    hs = []
    for v in ALL:
        for name, t in GENS.items():
            t = (t, None, {}) if isinstance(t, str) else t
            if t[2].get("lo") and v < t[2]["lo"]:
                continue
            if name == "state" and v < (2, 5):
                continue
            src = t[0]
            if not supported(v, src + DRIVE):
                continue
            snd = ([0, 1, 2, 3, 4] if name in ("plain", "received") else [0, 2, 3, 4]) if v >= (2, 5) and \
                name != "iterator-class" else [0, 3, 4]
            hs.append(history(v, name, src, t[1], 3, 1, snd))
            hs.append(history(v, name, src, t[1], 3, 2, [0, 2] if name in ("plain", "received") and v >= (2, 5) else [0]))
            hs.append(history(v, name, src, t[1], 5, 1, [0]))
            hs.append(history(v, name, src, t[1], 6, 1, [0, 2, 3] if 2 in snd else [0, 3], "thorough"))
            hs.append(history(v, name, src, t[1], 5, 2, [0, 2] if 2 in snd else [0], "thorough"))
    hs += src_checks(ALL, USES, prefix="use-")
    hs += src_checks([v for v in ALL if v.name in ("2.7", "3.12")], MISSING)
    hs += any_checks(PROP, ALL)
    return hs
