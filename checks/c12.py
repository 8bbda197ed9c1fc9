"""C12 with enters and exits its context manager exactly once."""
from checks import c10
from symx.lib import *  # noqa
from symx.anyvalue import any_checks

PROP = "C12"
ASSUMPTIONS = ["source programs are compiled for each version by symx/pyc.py (3.12: the host's own compiler)",
               "the reference is the host Python running the same source",
               "2.5, 2.6 and 3.1 look the manager's methods up on the instance, the others on its type"]
BOUNDS = ("all nestings of a with statement (with and without a target) and one further construct out of 10 around a "
          "body with every exit chosen symbolically; enter, exit, body and target assignment may each raise; the exit "
          "result is one of 8 values of either truth, or an object whose truth test may raise; <= 3 managers")

c10.W["with"] = '''with cm("m@"):
<B>
ev("w@")'''
c10.W["with-as"] = '''with cm("m@") as t@:
<B>
ev("w@", t@)'''
INNER = [n for n in c10.W if not n.startswith("with")]


def nests(depth):
    import itertools
    t = {}
    pool = list(c10.W)
    for names in itertools.product(pool, repeat=depth):
        if not any(n.startswith("with") for n in names):
            continue
        if depth == 3 and "with-as" in names:
            continue
        faults = {("ev", "b"): (E1, E2), "ev": ()}
        for k, n in enumerate(names):
            for c in "hgfow":
                faults[("ev", "%s%d" % (c, k))] = (E1,) if k else ()
            faults[("enter", "m%d" % k)] = (E1,)
            faults[("exit", "m%d" % k)] = (E2,)
        t["nest-" + "-in-".join(reversed(names))] = (c10.nest(names), faults, {"label": "control flow"})
    return t


class Res:
    """A manager whose exit gives a symbolic kind of result."""

    def __init__(self, env, k):
        self.env, self.k = env, k

    def __enter__(self):
        self.env.ctx.event("enter", self.k)
        return self

    def __exit__(self, *a):
        self.env.ctx.event("exit", self.k, a[0] and a[0].__name__)
        kind = self.env.ctx.choose(self.env.ctx._occname("result" + self.k),
                                   ["None", "1", "0", "str", "empty", "list", "cond", "excclass", "Ellipsis"])
        return {"None": None, "1": 1, "0": 0, "str": "return", "empty": "", "list": [0], "cond": Cond(self.env, self.k),
                "excclass": E1, "Ellipsis": Ellipsis}[kind]


def res(env):
    return {"res": lambda k: Res(env, k)}


RESULT = ('''
def main():
    for i in it("x", 1):
        with res("m"):
            ev("b")
            if c(1): return "r"
            if c(2): break
            if c(3): continue
        ev("after")
    return "end"
try: R = main()
except E1 as e: R = "E1"
except E3 as e: R = "E3"
''', {("ev", "b"): (E1,), "bool": (E3,)}, {"extra": res})


class Half:
    def __init__(self, env, has):
        self.env = env
        if "inst" in has:
            self.__enter__ = lambda: env.ctx.event("instance enter")
            self.__exit__ = lambda *a: env.ctx.event("instance exit")


class HalfEnter(Half):
    def __enter__(self):
        self.env.ctx.event("enter")


class HalfExit(Half):
    def __exit__(self, *a):
        self.env.ctx.event("exit")


class Whole(HalfEnter, HalfExit):
    pass


def half(env):
    def mk():
        cls = env.ctx.choose("class", [Half, HalfEnter, HalfExit, Whole])
        return cls(env, env.ctx.choose("inst", ["", "inst"]))
    return {"half": mk}


MISSING = ('''
def main():
    try:
        with half():
            ev("b")
        return "ok"
    except (AttributeError, TypeError):
        return "refused"
R = main()
''', None, {"extra": half, "lo": (2, 7)})

SRC = {
    "result": RESULT, "missing-method": MISSING,
    "two": ('''
def main():
    with cm("a") as x, cm("b") as y:
        ev("b", x, y)
        if c(1): return "r"
    return "end"
try: R = main()
except E1 as e: R = str(e)
except E2 as e: R = str(e)
''', {("ev", "b"): (E1,), "enter": (E2,), "exit": (E2,)}),
    "three": ('''
def main():
    with cm("a"):
        with cm("b"):
            with cm("d"):
                ev("b")
                if c(1): return "r"
            ev("1")
        ev("2")
    return "end"
try: R = main()
except E1 as e: R = str(e)
except E2 as e: R = str(e)
''', {("ev", "b"): (E1,), ("exit", "d"): (E2,), ("exit", "b"): (E1,)}),
    "targets": ('''
class O(object): pass
def main():
    o = O()
    d = {}
    with cm("a") as o.x: ev("b1")
    with cm("b") as d["k"]: ev("b2")
    with cm("d") as (p, q): ev("b3")
    return (o.x, d, p, q)
R = main()
''', {"enter": (E1,), ("ev", "b2"): (E2,)}),
    "target-fails": ('''
def main():
    with cm("d") as (p, q, r): ev("b3")
    return "suppressed"
try: R = main()
except ValueError: R = "ValueError"
''',),
    "manager-expression": ('''
def main():
    with pick("p") or cm("n"):
        ev("b")
    return "end"
R = main()
''', {("ev", "p"): (E1,), ("ev", "b"): (E2,)}, {"extra": lambda env: {"pick": lambda k: env.ev(k) and env.ctx.bool("which") and env.cm("p")}}),
    "in-generator": ('''
def gen():
    with cm("g") as x:
        yield ev("y1")
        yield ev("y2")
    yield ev("y3")
r = []
try:
    for v in gen():
        r.append(v)
except E1 as e:
    r.append(str(e))
R = r
''', {("ev", "y1"): (E1,), ("ev", "y2"): (E1,)}),
    "manager-in-interpreter": ('''
class M(object):
    def __init__(self, k): self.k = k
    def __enter__(self):
        ev("enter", self.k)
        return self.k
    def __exit__(self, t, e, tb):
        ev("exit", self.k, t is None, tb is None)
        return c("swallow" + self.k)
def main():
    with M("a") as x:
        with M("b") as y:
            ev("b", x, y)
            if c(1): return "r"
        ev("mid")
    return "end"
try: R = main()
except E1 as e: R = str(e)
except E2 as e: R = str(e)
''', {("ev", "b"): (E1,), ("ev", "exit"): (E2,), ("ev", "enter"): (E2,)}),
    "exit-sees-exception": ('''
class M(object):
    def __enter__(self): return self
    def __exit__(self, t, e, tb):
        self.seen = (t and t.__name__, e and type(e).__name__, e and str(e))
        return True
def main():
    m = M()
    with m:
        ev("b")
        if c(1): [][3]
        if c(2): raise E3("three")
        if c(3): {}["k"]
        if c(4): raise E2
        if c(5): return ("r", m)
    return ("end", m)
r = main()
R = (r[0], r[1].seen)
''', {("ev", "b"): (E1,)}),
    "reraise-in-exit": ('''
class M(object):
    def __enter__(self): return self
    def __exit__(self, t, e, tb):
        if c(2): raise E3("new")
        try:
            ev("x")
        except E2:
            ev("xh")
        return c(3)
def main():
    with M():
        ev("b")
    return "end"
try: R = main()
except E1 as e: R = str(e)
except E3 as e: R = str(e)
''', {("ev", "b"): (E1,), ("ev", "x"): (E2,)}),
    "exc-info-after": ('''
import sys
def main():
    with cm("a"):
        ev("b")
    return sys.exc_info()[0] is None
try: R = main()
except E1 as e: R = str(e)
''', {("ev", "b"): (E1,)}, {"lo": (3, 0)}),
    "module-level": ('''
R = []
for i in it("x", 2):
    with cm("a"):
        ev("b")
        if c(1): break
        if c(2): continue
    R.append("after")
else:
    R.append("else")
''', {("ev", "b"): (E1,)}),
    "stack-beneath": ('''
def body(k):
    with cm("a" + k):
        ev("b" + k)
        return k
    return "swallowed"
R = [1, body("x"), (2, body("y"))]
''', {"ev": (E1,)}),
}


def harnesses():
    vers = [v for v in ALL if v >= (2, 5)]
    hs = [h for h in src_checks(vers, SRC) if not h.hid.startswith("3.1/missing")]   # 3.1 reads plain attributes
    hs += src_checks(vers, nests(1))
    hs += src_checks(vers, nests(2), max_paths=3000)
    hs += src_checks([v for v in vers if v.name in ("2.7", "3.4", "3.7", "3.8", "3.10", "3.11", "3.12")], nests(3), tier="thorough")
    hs += any_checks(PROP, ALL)
    return hs
