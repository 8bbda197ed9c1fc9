"""C27 a compiled program behaves as it does under the host Python."""
import sys

from symx.lib import *  # noqa

PROP = "C27"
ASSUMPTIONS = ["programs are compiled for each version by symx/pyc.py (3.12: by the host's own compiler)",
               "the host Python running the same program is the reference; where the versions differ (comprehension variables in Python 2) "
               "a program is left out", "the inputs are integers; operations on them are the host's"]
BOUNDS = ("statements %d x constructs %d, nested up to two deep or two in sequence, in a function or a module body (about 9000 programs; each "
          "version runs every 23rd, 3.12 every third; thorough: all), inputs a and b any integers of -1..2; %d whole programs, inputs "
          "any of up to 10 values each")

PRELUDE = '''
class M(object):
    def __init__(self, r): self.r = r
    def __enter__(self):
        self.r.append("enter")
        return 7
    def __exit__(self, t, v, tb):
        self.r.append(("exit", t is None or t.__name__))
        return t is IndexError
def f(x, y=2, *rest, **k):
    return x - y + k.get("k", 1) + len(rest)
def gn(n):
    i = 0
    while i < n and i < 3:
        i += 1
        yield i
    out("gn", n)
'''

LEAF = {
    "add": "a = a + b",
    "swap": "a, b = b, a",
    "append": "r.append(a * 2 - b)",
    "call": "b = f(a, k=b)",
    "starcall": "r.append(f(*(a, b, 1, 2), **{'k': a}))",
    "raise": "if a > b: raise E1(a)",
    "raise3": "if b == 1: raise E3('three')",
    "return": "if a == b: return ('ret', len(r))",
    "break": "if a > 1: break",
    "continue": "if b < 0: continue",
    "comprehension": "r.append([x + b for x in range(a) if x != b])",
    "genexp": "r.append(sum(x * b for x in (1, a)))",
    "dict": "d = {a: b, 9: 1}\nd[b] = a\nr.append(sorted(d.items()))",
    "slice": "r[-1:] = [a, b]\na -= 1",
    "compare": "r.append((a < b <= 2, a == b or b, not a and b, a if b else 5))",
    "div": "r.append((a // b, a % b))",
    "index": "r.append((1, 2, 3)[a])",
    "format": "r.append('%s-%s' % (a, [b]))",
    "lambda": "r.append((lambda x, y=b: x - y)(a))",
    "generator": "r.extend(gn(a))",
    "maybe-unbound": "if a < 0: z = b\nr.append(z)",
    "delete": "cc = a\nif b: del cc\nr.append(cc)",
    "out": "out(a, b)\nr.append(out is None)",
    "attribute": "f.n = a\nr.append(f.n + b)\ndel f.n",
    "import": "from math import floor as fl\nr.append(fl(a))",
    "unpack": "(a, (c, b)) = [b, (1, a)]\nr.append(c)",
    "chain": "a = c = b = a - b\nr.append(c)",
    "assert": "assert a <= b, 'assertion'",
    "type": "r.append(isinstance(a, int) and [].append(a) is None)",
    "bits": "r.append((a & 3, a | b, a ^ 1, ~b, -a, +b))",
}
LO = {"raise3": (2, 4)}
BIG = {
    "if": "if a < b:\n    @\nelse:\n    r.append('else')",
    "elif": "if a > 2: r.append(1)\nelif b > a:\n    @\nelse: r.append(3)",
    "while": "n = 0\nwhile n < 2 and a != b:\n    n += 1\n    r.append(n)\n    @\nelse:\n    r.append('we')",
    "for": "for i in (1, 2):\n    a += i\n    @\nelse:\n    r.append('fe')",
    "for-range": "for i in range(b):\n    if i > 2: break\n    @\n    r.append(i)",
    "try": "try:\n    @\nexcept E1:\n    r.append('E1')\nexcept (ZeroDivisionError, IndexError):\n    r.append('arith')\nelse:\n    r.append('else')",
    "handler": "try:\n    r.append(1 // b)\nexcept ZeroDivisionError:\n    @\n    r.append('h')",
    "finally": "try:\n    @\nfinally:\n    r.append(('f', a))",
    "in-finally": "try:\n    r.append(1 // b)\nfinally:\n    @",
    "with": "with M(r) as x:\n    r.append(x)\n    @",
    "def": "def h(a, b=b):\n    @\n    return a\nr.append(h(b))\nr.append(h(b, a))",
    "closure": "def h():\n    q = [a, b]\n    def hh(): return (a, q)\n    return hh()\nr.append(h())\n@\nr.append(h())",
    "genfunc": "def h(a, b):\n    yield b\n    @\n    yield a\nfor y in h(a, b): r.append(y)",
    "class": "class K(object):\n    p = b\n    def m(self, a, b=3):\n        @\n        return (a, self.p)\nr.append(K().m(a))",
    "class-body": "class K(object):\n    w = a\n    @\nr.append(sorted(n for n in vars(K) if n[:1] != '_'))",
}


# whole programs: (source, range of the inputs a and b[, lowest version])
ALGO = {
    "gcd": ('''
def gcd(x, y):
    while y:
        x, y = y, x % y
    return x
R = [gcd(a, b), gcd(b, a), gcd(a, a)]
''', 0, 5),
    "fib": ('''
def fib(n):
    if n < 2: return n
    return fib(n - 1) + fib(n - 2)
def it(n):
    x, y = 0, 1
    for i in range(n): x, y = y, x + y
    return x
R = [fib(a), it(b), fib(a) == it(a)]
''', 0, 5),
    "sort": ('''
def bubble(l):
    l = l[:]
    for i in range(len(l)):
        for j in range(len(l) - 1 - i):
            if l[j] > l[j + 1]:
                l[j], l[j + 1] = l[j + 1], l[j]
    return l
def quick(l):
    if not l: return l
    return quick([x for x in l[1:] if x < l[0]]) + l[:1] + quick([x for x in l[1:] if x >= l[0]])
R = [bubble([a, 1, b]), quick([b, a, 2, a])]
''', -1, 3),
    "search": ('''
def find(l, x):
    lo, hi = 0, len(l)
    while lo < hi:
        mid = (lo + hi) // 2
        if l[mid] == x: return mid
        elif l[mid] < x: lo = mid + 1
        else: hi = mid
    else:
        return -1
R = [find([1, 2, 4, 6, 9], a), find([], b), find([3], b)]
''', 0, 9),
    "collatz": ('''
def run(n):
    k = 0
    while n != 1:
        if n % 2: n = 3 * n + 1
        else: n = n // 2
        k += 1
        if k > 20: break
    else:
        return k
    return None
R = [run(a), run(b)]
''', 1, 7),
    "sieve": ('''
def primes(n):
    s = [True] * (n + 1)
    for i in range(2, n + 1):
        if not s[i]: continue
        yield i
        for j in range(i * i, n + 1, i): s[j] = False
R = [list(primes(a)), sum(primes(b))]
''', 0, 8),
    "stack-machine": ('''
class Stack(object):
    def __init__(self): self.items = []
    def push(self, x):
        self.items.append(x)
        return self
    def pop(self):
        if not self.items: raise E1("empty")
        return self.items.pop()
def run(code):
    s = Stack()
    for op in code:
        try:
            if op == "add": s.push(s.pop() + s.pop())
            elif op == "div":
                x = s.pop()
                s.push(s.pop() // x)
            elif op == "drop": s.pop()
            else: s.push(op)
        except E1: s.push("underflow")
        except ZeroDivisionError: s.push("zero")
    return s.items
ops = ["add", "div", "drop", 3, 0]
R = [run([8, 2, ops[a], ops[b], ops[a]]), run([ops[a], ops[b]])]
''', 0, 4),
    "bank": ('''
class Account(object):
    total = 0
    def __init__(self, n): self.n = n; Account.total += n
    def take(self, k):
        if k > self.n: raise ValueError("too much")
        self.n -= k
        return self.n
class Saver(Account):
    def take(self, k):
        try: return Account.take(self, k)
        except ValueError: return -1
        finally: self.n += 1
x, y = Account(a), Saver(b)
R = []
for o in (x, y, y):
    try: R.append(o.take(2))
    except ValueError: R.append("no")
R += [x.n, y.n, Account.total, Saver.total]
''', 0, 4),
    "memo": ('''
def memo(f):
    cache = {}
    def g(*args):
        if args not in cache: cache[args] = f(*args)
        return cache[args]
    g.cache = cache
    return g
calls = []
@memo
def paths(x, y):
    calls.append((x, y))
    if x == 0 or y == 0: return 1
    return paths(x - 1, y) + paths(x, y - 1)
R = [paths(a, b), paths(b, a), len(calls), len(paths.cache)]
''', 0, 3),
    "hanoi": ('''
def move(n, x, y, z, log):
    if n == 0: return 0
    k = move(n - 1, x, z, y, log)
    log.append((n, x, z))
    return k + 1 + move(n - 1, y, x, z, log)
log = []
R = [move(a, "A", "B", "C", log), log]
''', 0, 4),
    "counter": ('''
def counter(start):
    n = [start]
    def step(k=1):
        n[0] += k
        return n[0]
    def reset(): n[0] = start
    return step, reset
s, r = counter(a)
t, u = counter(b)
R = [s(), s(b), t(), r(), s(), u(), t(a)]
''', -3, 3),
    "queue": ('''
def produce(n):
    for i in range(n): yield i * i
def keep(it, k):
    for x in it:
        if x % 2 == k % 2: yield x
def chunks(it, n):
    c = []
    for x in it:
        c.append(x)
        if len(c) == n:
            yield tuple(c)
            c = []
    if c: yield tuple(c)
R = list(chunks(keep(produce(a + 4), b), 2))
''', 0, 3),
    "matrix": ('''
def mul(x, y):
    return [[sum([x[i][k] * y[k][j] for k in range(2)]) for j in range(2)] for i in range(2)]
m = [[a, 1], [b, a]]
p = m
for i in range(3): p = mul(p, m)
R = [p, [list(c) for c in zip(*p)]]
''', -2, 2),
    "permutations": ('''
def perms(l):
    if len(l) < 2:
        yield l
        return
    for i in range(len(l)):
        for p in perms(l[:i] + l[i + 1:]):
            yield [l[i]] + p
R = [p for p in perms([a, b, 3])]
''', 0, 2),
    "histogram": ('''
d = {}
for w in ["x", "y", "x", a, b, a]:
    d[w] = d.get(w, 0) + 1
    if d[w] == 3: del d[w]
R = sorted([(str(k), v) for k, v in d.items()])
''', 0, 2),
    "parser": ('''
class Bad(Exception): pass
def parse(s):
    pos = [0]
    def peek():
        if pos[0] < len(s): return s[pos[0]]
        return ""
    def take():
        c = peek()
        pos[0] += 1
        return c
    def factor():
        c = take()
        if c == "(":
            v = expr()
            if take() != ")": raise Bad("paren")
            return v
        if c == "-": return -factor()
        if c.isdigit(): return int(c)
        raise Bad("char " + c)
    def term():
        v = factor()
        while peek() and peek() in "*/":
            if take() == "*": v *= factor()
            else: v //= factor()
        return v
    def expr():
        v = term()
        while peek() and peek() in "+-":
            if take() == "+": v += term()
            else: v -= term()
        return v
    try:
        v = expr()
        if pos[0] < len(s): raise Bad("rest")
        return v
    except (Bad, ZeroDivisionError):
        return "bad"
part = ["1+2", "*3", "(4-", ")", "-5", "/0"]
R = [parse(part[a] + part[b]), parse("(" + part[a] + ")*" + part[b])]
''', 0, 5),
    "event-log": ('''
class Log(object):
    def __init__(self, keep): self.keep, self.lines = keep, []
    def __enter__(self):
        self.lines.append("in")
        return self.lines.append
    def __exit__(self, t, v, tb):
        self.lines.append(t is None or t.__name__)
        return t is not None and self.keep
def work(n, log):
    for i in range(3):
        with log as say:
            say(i)
            if i == n: raise E1(str(n))
            if i == 1 and n < 0: continue
            if i > n: return "early"
            say("tail")
    return "end"
R = []
for n, k in ((a, b), (b, a)):
    log = Log(k > 0)
    try: R.append(work(n, log))
    except E1: R.append("E1")
    R.append(log.lines)
''', -1, 2, (2, 5)),
    "linked-list": ('''
class Node(object):
    def __init__(self, v, rest=None): self.v, self.rest = v, rest
    def __iter__(self):
        n = self
        while n is not None:
            yield n.v
            n = n.rest
    def __len__(self): return 1 + (self.rest is not None and len(self.rest) or 0)
    def __getitem__(self, i):
        if i == 0: return self.v
        if self.rest is None: raise IndexError(i)
        return self.rest[i - 1]
    def __contains__(self, x): return x == self.v or (self.rest is not None and x in self.rest)
    def __eq__(self, o): return list(self) == list(o)
    def __add__(self, o): return Node(self.v, (self.rest + o) if self.rest is not None else o)
    def __repr__(self): return "Node(%r)" % (self.v,)
n = Node(a, Node(b, Node(2)))
R = [list(n), len(n), 2 in n, a in n, n == [a, b, 2], list(n + n), repr(n), n[1]]
try: n[b + 3]
except IndexError: R.append("IndexError")
''', 0, 2),
    "retry": ('''
def attempt(n, fail):
    tried = []
    while True:
        try:
            try:
                tried.append(n)
                if n < fail: raise E1(n)
                elif n == 4: raise KeyError(n)
            except E1:
                n += 1
                continue
            else:
                tried.append("ok")
                break
        finally:
            tried.append("f")
    return tried
R = []
for args in ((a, b), (b, a)):
    try: R.append(attempt(*args))
    except KeyError: R.append("KeyError")
''', 0, 4, (2, 5)),
    "dispatch": ('''
def add(x, y=1): return x + y
def neg(x): return -x
class Twice(object):
    def __call__(self, x): return 2 * x
table = {0: add, 1: neg, 2: Twice(), 3: lambda x, *r: (x, r), 4: str}
def apply(k, *args, **kw):
    try: return table[k](*args, **kw)
    except KeyError: return "no such"
    except TypeError: return "bad call"
R = [apply(a, b), apply(b, a, 5), apply(a, 3, y=b), apply(9)]
''', 0, 4),
}
MODERN = {
    "walrus": ('''
l = [y for x in range(a) if (y := x * b) > 0]
while (a := a - 1) > 0: l.append(a)
R = [l, a, y if l and "y" in globals() else None]
''', -1, 3, (3, 8)),
    "signature": ('''
def f(x, /, y, *, z=a): return (x, y, z)
R = [f(a, b), f(a, y=b, z=1)]
try: f(x=a, y=b)
except TypeError: R.append("TypeError")
''', 0, 1, (3, 8)),
    "nonlocal": ('''
def outer():
    n = a
    def inner():
        nonlocal n
        n += b
        return n
    return [inner(), inner(), n]
R = outer()
''', -3, 3, (3, 0)),
    "unpacking": ('''
x, *y, z = [a, b, *range(a), 9]
R = [x, y, z, [*y, *y], {*y}, {**{"a": a}, "b": b}]
''', 0, 3, (3, 5)),
    "fstring": ('''
R = [f"{a}+{b}={a + b:>4}", f"{a!r:{b + 3}}|", f"{'x' * a}{b:+d}"]
''', 0, 3, (3, 6)),
    "stdlib": ('''
import functools, itertools, collections, operator, contextlib
@functools.lru_cache(None)
def f(n): return n if n < 2 else f(n - 1) + f(n - 2)
P = collections.namedtuple("P", "x y")
@contextlib.contextmanager
def cm(x):
    r.append(("in", x))
    try: yield x + 1
    except E1: r.append("E1")
    finally: r.append("out")
r = []
with cm(a) as v:
    r.append(v)
R = [f(a + 2), repr(P(a, b)._replace(x=5)), list(itertools.accumulate([a, b, 3])), r, functools.reduce(operator.mul, [a, b, 2]),
     repr(sorted([P(a, b), P(b, a)], key=lambda p: p.y)), collections.Counter([a, b, a]).most_common(1)]
''', 0, 2, (3, 12)),
    "dataclass": ('''
import dataclasses, enum
@dataclasses.dataclass(order=True)
class D:
    x: int
    y: list = dataclasses.field(default_factory=list)
    def __post_init__(self): self.x += b
class Colour(enum.Enum):
    RED = a
    BLUE = b + 5
R = [D(a), D(a) < D(b, [1]), dataclasses.asdict(D(1, [a])), Colour.RED.value, Colour(b + 5).name, [c.name for c in Colour]]
R[0] = repr(R[0])
''', 0, 2, (3, 12)),
    "exceptions": ('''
def f(x):
    try:
        try: return 10 // x
        except ZeroDivisionError as e: raise E1("wrapped") from e
    finally: r.append("f")
r = []
try: r.append(f(a))
except E1 as e: r.append((str(e), type(e.__cause__).__name__, e.__context__ is e.__cause__))
try: e
except NameError: r.append("unbound")
R = r
''', -1, 1, (3, 0)),
    "class-machinery": ('''
class Meta(type):
    def __new__(m, name, bases, ns, k=0):
        ns["k"] = k
        return super().__new__(m, name, bases, ns)
    def __init__(c, name, bases, ns, k=0): super().__init__(name, bases, ns)
class Field:
    def __set_name__(self, owner, name): self.name = "_" + name
    def __get__(self, o, t): return self if o is None else getattr(o, self.name, None)
    def __set__(self, o, v): setattr(o, self.name, v + 1)
class A(metaclass=Meta, k=a):
    x = Field()
    def __init__(self): self.x = b
    def __init_subclass__(cls, **kw): R.append((cls.__name__, sorted(kw)))
    @property
    def double(self): return self.x * 2
    @classmethod
    def make(cls): return cls()
    @staticmethod
    def st(x): return x + 1
R = []
class B(A, k=b):
    def __init__(self):
        super().__init__()
        self.x += self.k
o = B.make()
R += [A.k, B.k, o.x, o.double, A().x, B.st(a), isinstance(o, A), B.__mro__[1] is A]
''', 0, 2, (3, 6)),
    "generators": ('''
def avg():
    n = t = 0
    while True:
        x = yield t
        if x is None: return t, n
        t += x
        n += 1
def run():
    r = yield from avg()
    yield ("done", r)
g = run()
R = [next(g), g.send(a), g.send(b), g.send(None)]
''', -2, 2, (3, 3)),
    "global-del": ('''
def setup():
    global q
    q = a
def drop():
    global q
    del q
setup()
R = [q + b]
drop()
try: q
except NameError: R.append("gone")
''', 0, 1),
    "slices": ('''
l = list(range(6))
R = [l[a:b], l[a:], l[:b], l[::b or 1], l[a:b:-1], l[-a:], "abcdef"[a:b]]
l[a:b] = ["x"]
del l[b:a]
R.append(l)
''', 0, 3),
    "chained": ('''
R = [0 < a < b, a < b > 1, not a == b != 2, a in (b, 1) or b not in [a], (a and b) or not (a or b), a if a > b else b if b else None]
''', -1, 2),
    "annotations": ('''
x: int = a
def f(p: int = b, *q: str) -> None:
    y: list = [p]
    return y
class C:
    z: int
    w: int = a
R = [x, f(), f(1, 2), sorted(C.__annotations__), C.w, sorted(f.__annotations__)]
''', 0, 1, (3, 12)),
    "printing": ('''
print(a, b)
print("x", a, sep="-", end="!\\n")
print()
R = [str(a), repr([b, "q"]), "%d %s %r" % (a, b, str(a))]
''', -1, 1, (3, 0)),
}


def indent(text, by):
    return "\n".join(" " * by + line for line in text.split("\n"))


def fill(big, body):
    out = []
    for line in BIG[big].split("\n"):
        if line.strip() == "@":
            out.append(indent(body, len(line) - len(line.lstrip())))
        else:
            out.append(line)
    return "\n".join(out)


def whole(body, module=False):
    if module:
        return PRELUDE + "r = []\n" + body + "\nR = (r, a, b)\n"
    return PRELUDE + "def main(a, b):\n    r = []\n" + indent(body, 4) + "\n    r.append((a, b))\n    return r\nR = None\nR = main(a, b)\n"


def valid(src):
    try:
        compile(src, "<p>", "exec", dont_inherit=True)
        return True
    except SyntaxError:
        return False


def programs():
    for x in LEAF:
        for y in BIG:
            yield "%s(%s)" % (y, x), whole(fill(y, LEAF[x]))
            yield "module:%s(%s)" % (y, x), whole(fill(y, LEAF[x]), True)
            for z in BIG:
                yield "%s(%s(%s))" % (z, y, x), whole(fill(z, fill(y, LEAF[x])))
    names = list(LEAF)
    for i, x in enumerate(names):
        for j, x2 in enumerate(names):
            for k, y in enumerate(BIG):
                if (i + j + k) % 7 == 0:
                    yield "%s(%s;%s)" % (y, x, x2), whole(fill(y, LEAF[x] + "\n" + LEAF[x2]))


class Out:
    """Standard output, recorded."""

    def __init__(self, ctx):
        self.ctx = ctx

    def write(self, text):
        self.ctx.event("write", text)

    def flush(self):
        pass


def case(v, name, src, tier, lo=-1, hi=2, max_paths=400):
    def fn(ctx):
        if not supported(v, src):       # (quick harnesses are all supported)
            return
        def go(on):
            def thunk():
                env = Env(ctx)
                ns = env.ns()
                ns.update(a=ctx.int("a", lo, hi), b=ctx.int("b", lo, hi), out=lambda *x: ctx.event("out", *x))
                saved, sys.stdout = sys.stdout, Out(ctx)
                try:
                    if on:
                        execute(v.vm(), compiled(v, src), ns, ns)
                    else:
                        exec(compiled(None, src), ns)
                except (ArithmeticError, LookupError, NameError, AssertionError, TypeError, AttributeError, ValueError) as e:
                    return (type(e).__name__, ns.get("r"))
                finally:
                    sys.stdout = saved
                r = ns["R"]
                return [x if x is not ns["out"] else "out" for x in r] if isinstance(r, list) else r
            return ctx.run(thunk)
        ctx.same(go(1), go(0), "program")
    return H("%s/%s" % (v, name), fn, str(v), tier=tier, max_paths=max_paths)


def harnesses():
    hs = []
    progs = [(n, s) for n, s in programs() if valid(s)]
    for i, v in enumerate(ALL):
        for j, (n, s) in enumerate(progs):
            quick = j % 23 == i % 23 or (v.name == "3.12" and j % 3 == 0)
            if v < (3, 0) and "class-body" in n and "comprehension" in n:
                continue                # binds x in the class in Python 2
            if quick and not supported(v, s):
                continue
            hs.append(case(v, n, s, "quick" if quick else "thorough"))
        for table in (ALGO, MODERN):
            for n, t in table.items():
                if len(t) > 3 and v < t[3] or not supported(v, t[0]):
                    continue
                hs.append(case(v, "program-" + n, t[0], "quick", t[1], t[2]))
                hs.append(case(v, "program-" + n + "-wide", t[0], "thorough", t[1] - 1, t[2] + 2, 4000))
    return hs


BOUNDS = BOUNDS % (len(LEAF), len(BIG), len(ALGO) + len(MODERN))
