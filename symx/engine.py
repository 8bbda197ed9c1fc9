"""Symbolic executor for the real x-python code.

The code under test (imported from /repo, never copied) is *executed* with proxy
values: integers backed by z3 Int terms (SymInt), truth values that fork
(SymBool), opaque objects whose operations are uninterpreted functions (Obj),
and named nondeterministic draws.  Every control decision that depends on a
symbolic value goes through Ctx.branch(), which asks z3 which outcomes are
feasible under the current path condition; all feasible outcomes are explored by
depth-first re-execution.  Assertions are discharged by z3 per path:
`pc and not(assertion)` must be unsat.  A sat answer is a counterexample; its
model is replayed by running the same harness in concrete mode (real ints, plain
marker objects, no solver) against the same code, and only if the assertion
fails there too is it reported.
"""
import os
import signal
import sys
import time
import traceback

import z3

ENUM_CAP = 300          # max values enumerated when a symbolic int is concretised
MAX_STEPS = 20000        # instructions of one run; more counts as not ending
PATH_TIMEOUT = 15.0     # seconds for one path / one concrete replay


class PathStop(BaseException):
    """Base of exceptions steering the exploration (never seen by code under test
    as an `Exception`)."""


class Infeasible(PathStop):
    pass


class PathTimeout(PathStop):
    pass


class HarnessError(BaseException):
    """The harness itself is wrong (not the code under test)."""


class FetchAt(PathStop):
    """The interpreter fetched an opcode at a symbolic address."""

    def __init__(self, addr):
        self.addr = addr


_OBJ = None
_CUR = None  # the current Ctx


def cur():
    return _CUR


# ---------------------------------------------------------------- symbolic ints
def _lift(v):
    if isinstance(v, SymInt):
        return v.t
    if type(v) is bool:
        return z3.IntVal(int(v))
    if type(v) is int:
        return z3.IntVal(v)
    return None


def _mk(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


def is_pow2(n):
    return n > 0 and (n & (n - 1)) == 0


class SymInt:
    """A z3 Int posing as a Python int."""

    __slots__ = ("t",)

    def __init__(self, t):
        object.__setattr__(self, "t", t)

    @property
    def __class__(self):
        return int

    # -- arithmetic
    def _bin(self, o, f, swap=False):
        b = _lift(o)
        if b is None:
            return NotImplemented
        return _mk(f(b, self.t) if swap else f(self.t, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return self.__index__() * o
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b, True)

    def __neg__(self):
        return _mk(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def __invert__(self):
        return _mk(-self.t - 1)

    def _dm(self, a, b):
        """floor division and modulo (Python semantics) of lifted a, b"""
        if cur().branch(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        # SMT-LIB div is Euclidean: floor for b>0
        if cur().branch(b > 0):
            q = a / b
        else:
            q = (-a) / (-b)
        return q, a - q * b

    def __floordiv__(self, o):
        b = _lift(o)
        if b is None:
            return NotImplemented
        return _mk(self._dm(self.t, b)[0])

    def __rfloordiv__(self, o):
        b = _lift(o)
        if b is None:
            return NotImplemented
        return _mk(self._dm(b, self.t)[0])

    def __mod__(self, o):
        b = _lift(o)
        if b is None:
            return NotImplemented
        return _mk(self._dm(self.t, b)[1])

    def __rmod__(self, o):
        b = _lift(o)
        if b is None:
            if isinstance(o, str):
                return o % (self.__index__(),)
            return NotImplemented
        return _mk(self._dm(b, self.t)[1])

    def __divmod__(self, o):
        b = _lift(o)
        if b is None:
            return NotImplemented
        q, r = self._dm(self.t, b)
        return _mk(q), _mk(r)

    def __rdivmod__(self, o):
        b = _lift(o)
        if b is None:
            return NotImplemented
        q, r = self._dm(b, self.t)
        return _mk(q), _mk(r)

    def __truediv__(self, o):
        return self.__index__() / (o.__index__() if isinstance(o, SymInt) else o)

    def __rtruediv__(self, o):
        return o / self.__index__()

    def __pow__(self, o, m=None):
        if m is None and type(o) is int and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        o = o.__index__() if isinstance(o, SymInt) else o
        return pow(self.__index__(), o, m) if m is not None else self.__index__() ** o

    def __rpow__(self, o):
        return o ** self.__index__()

    def __lshift__(self, o):
        if isinstance(o, SymInt):
            o = o.__index__()
        if type(o) is not int:
            return NotImplemented
        if o < 0:
            raise ValueError("negative shift count")
        return _mk(self.t * (1 << o))

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        if isinstance(o, SymInt):
            o = o.__index__()
        if type(o) is not int:
            return NotImplemented
        if o < 0:
            raise ValueError("negative shift count")
        return _mk(self.t / z3.IntVal(1 << o))

    def __rrshift__(self, o):
        return o >> self.__index__()

    # bitwise operations: exact for masks of contiguous bits, disjoint parts,
    # otherwise by way of 64-bit bit-vectors on values known to fit.
    def _bits(self, o, kind):
        if type(o) is bool:
            o = int(o)
        if type(o) is int:
            if kind == "and":
                if o == 0:
                    return 0
                if o > 0 and is_pow2(o + 1):
                    return _mk(self.t % z3.IntVal(o + 1))
                if o > 0:
                    low = (o & -o).bit_length() - 1
                    if is_pow2((o >> low) + 1):
                        return _mk(((self.t / z3.IntVal(1 << low)) % z3.IntVal((o >> low) + 1)) * (1 << low))
                    # sum of single bits
                    parts = []
                    for k in range(o.bit_length()):
                        if o >> k & 1:
                            parts.append(((self.t / z3.IntVal(1 << k)) % 2) * (1 << k))
                    return _mk(z3.Sum(parts))
                if o < 0:
                    # x & ~m  = x - (x & m)
                    return self - self._bits(~o, "and")
            if kind == "or":
                return self + o - self._bits(o, "and")
            if kind == "xor":
                a = self._bits(o, "and")
                return self + o - 2 * a
        if isinstance(o, SymInt):
            c = cur()
            # disjoint-bits fast path: o is a multiple of 2^k and 0<=self<2^k
            for a, b in ((self, o), (o, self)):
                for k in (8, 16, 24, 32):
                    n = 1 << k
                    if c.valid(z3.And(a.t >= 0, a.t < n, b.t % n == 0)):
                        if kind in ("or", "xor"):
                            return _mk(a.t + b.t)
                        return 0
            return getattr(self, {"and": "__and__", "or": "__or__", "xor": "__xor__"}[kind])(o.__index__())
        return NotImplemented

    def __and__(self, o):
        return self._bits(o, "and")

    __rand__ = __and__

    def __or__(self, o):
        return self._bits(o, "or")

    __ror__ = __or__

    def __xor__(self, o):
        return self._bits(o, "xor")

    __rxor__ = __xor__

    # -- comparisons fork at once and give real bools
    def _cmp(self, o, f):
        b = _lift(o)
        if b is None:
            if isinstance(o, float):
                return f(self.__index__(), o)
            return NotImplemented
        return cur().branch(f(self.t, b))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return cur().branch(self.t != 0)

    # -- concretisation: fork over every feasible value
    def __index__(self):
        return cur().concretise(self.t)

    __int__ = __index__
    __trunc__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def __round__(self, n=None):
        return self if n is None else round(self.__index__(), n)

    def bit_length(self):
        return self.__index__().bit_length()

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def __repr__(self):
        return "<int %s>" % (str(self.t).replace("\n", " "),)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self) if not spec else format(self.__index__(), spec)


# ------------------------------------------------------------------ term algebra
# A term is a nested tuple (functor, *args); args are terms, SymInts, ints, strs.
def term_z3(t, ctx):
    """z3 term (sort Obj) for a structural term."""
    if isinstance(t, Term):
        t = object.__getattribute__(t, "_t")
    if isinstance(t, SymInt):
        f = ctx.func("int", z3.IntSort(), ctx.obj_sort)
        return f(t.t)
    if type(t) is int:
        f = ctx.func("int", z3.IntSort(), ctx.obj_sort)
        return f(z3.IntVal(t))
    if isinstance(t, tuple) and t and isinstance(t[0], str):
        args = [term_z3(a, ctx) for a in t[1:]]
        name = "%s/%d" % (t[0], len(args))
        f = ctx.func(name, *([ctx.obj_sort] * (len(args) + 1)))
        return f(*args) if args else f()
    return ctx.func("lit:%s" % (t,), ctx.obj_sort)()


def term_str(t):
    if isinstance(t, Term):
        t = object.__getattribute__(t, "_t")
    if isinstance(t, tuple) and t and isinstance(t[0], str):
        if len(t) == 1:
            return t[0]
        return "%s(%s)" % (t[0], ",".join(term_str(a) for a in t[1:]))
    if isinstance(t, SymInt):
        return str(z3.simplify(t.t)).replace("\n", " ")
    return repr(t)


def term_of(o):
    if isinstance(o, Term):
        return object.__getattribute__(o, "_t")
    return o


class SymRaise(Exception):
    """Exception raised by an opaque operation."""

    def __init__(self, tag="?"):
        Exception.__init__(self, tag)
        self.tag = tag


_BIN = "add sub mul truediv floordiv mod pow lshift rshift and or xor matmul div divmod".split()
_CMP = "lt le gt ge eq ne".split()
_UN = "neg pos invert abs".split()


class Term:
    """A value known only by its term; supports no operation."""

    def __init__(self, term):
        object.__setattr__(self, "_t", term if isinstance(term, tuple) else (term,))

    def __repr__(self):
        return "<%s>" % term_str(self)

    __hash__ = object.__hash__


class Obj(Term):
    """Opaque object: any operation is an uninterpreted function of its operands,
    recorded as an event, and may raise if the harness allows it."""

    __hash__ = object.__hash__

    def __bool__(self):
        c = cur()
        return c.draw_bool("truth[%s]" % term_str(self), ev=("bool", self))


def _op(name, *operands):
    c = cur()
    t = (name,) + tuple(term_of(o) if isinstance(o, Term) else ("py", repr(o)) if not isinstance(o, (int, SymInt)) else o for o in operands)
    c.event(name, *operands)
    c.maybe_raise(term_str(t))
    return Obj(t)


def _mkbin(name):
    def f(self, o, *rest):
        return _op(name, self, o, *rest)

    def r(self, o):
        return _op("r" + name if False else name, o, self)

    return f, r


for _n in _BIN:
    _f, _r = _mkbin(_n)
    setattr(Obj, "__%s__" % _n, _f)
    setattr(Obj, "__r%s__" % _n, _r)
for _n in _CMP:
    setattr(Obj, "__%s__" % _n, (lambda n: lambda self, o: _op(n, self, o))(_n))
for _n in _UN:
    setattr(Obj, "__%s__" % _n, (lambda n: lambda self: _op(n, self))(_n))
Obj.__getitem__ = lambda self, k: _op("getitem", self, _key(k))
Obj.__hash__ = object.__hash__


def _key(k):
    if isinstance(k, slice):
        return Obj(("slice", lit(k.start), lit(k.stop), lit(k.step)))
    return k


def lit(v):
    if isinstance(v, Term):
        return term_of(v)
    if isinstance(v, SymInt) or type(v) is int:
        return v
    return ("py", repr(v))


def _setitem(self, k, v):
    c = cur()
    c.event("setitem", self, _key(k), v)
    c.maybe_raise("setitem")


def _delitem(self, k):
    c = cur()
    c.event("delitem", self, _key(k))
    c.maybe_raise("delitem")


def _contains(self, v):
    c = cur()
    c.event("contains", self, v)
    c.maybe_raise("contains")
    return c.draw_bool("contains[%s,%s]" % (term_str(self), term_str(v)))


Obj.__setitem__ = _setitem
Obj.__delitem__ = _delitem
Obj.__contains__ = _contains
Obj.__iter__ = None


class InplaceObj(Obj):
    """Opaque object that also defines in-place operators."""

    __hash__ = object.__hash__


for _n in _BIN:
    if _n != "divmod":
        setattr(InplaceObj, "__i%s__" % _n, (lambda n: lambda self, o: _op("i" + n, self, o))(_n))


class AttrObj(Obj):
    """Opaque object with attribute protocol on names starting with 'a_'."""

    __hash__ = object.__hash__

    def __getattr__(self, name):
        if not name.startswith("a_"):
            raise AttributeError(name)
        c = cur()
        c.event("getattr", self, name)
        c.maybe_raise("getattr." + name, AttributeError)
        return Obj(("getattr." + name, term_of(self)))

    def __setattr__(self, name, v):
        c = cur()
        c.event("setattr", self, name, v)
        c.maybe_raise("setattr." + name, AttributeError)

    def __delattr__(self, name):
        c = cur()
        c.event("delattr", self, name)
        c.maybe_raise("delattr." + name, AttributeError)


# ----------------------------------------------------------------- outcomes
class Outcome:
    def __init__(self, kind, value, events, extra=None):
        self.kind = kind  # 'ret' | 'exc' | 'timeout' | 'fetch'
        self.value = value
        self.events = events
        self.extra = extra

    def __repr__(self):
        v = self.value
        if self.kind == "exc":
            v = "%s%r" % (type(v).__name__, getattr(v, "args", ()))
        return "%s:%s events=%s" % (self.kind, v, self.events)


# ----------------------------------------------------------------- context
class Violation:
    def __init__(self, label, model, detail, path):
        self.label, self.model, self.detail, self.path = label, model, detail, path


class Ctx:
    def __init__(self, mode, model=None, max_seconds=60.0):
        self.steps = 0
        self.mode = mode
        self.model = model or {}
        self.decisions = []      # forced prefix
        self.pos = 0
        self.trail = []          # (cond, taken, alt_feasible)
        self.events = []
        self.occ = {}
        self.faults = None       # fault policy
        self.draws = {}          # name -> z3 var (sym) / value (conc)
        self.violations = []
        self.nqueries = 0
        self.asserts = 0
        self.enum_truncated = False
        self.solver = None
        self.funcs = {}
        self.notes = []
        if mode == "sym":
            self.obj_sort = z3.DeclareSort("Obj")
            self.solver = z3.Solver()
            self.solver.set("timeout", 30000)
        self.solver_time = 0.0
        self.failed_labels = set()
        self.dead = None         # what ends this path, if it is over
        self.unknowns = 0
        self.reached = []

    # -- z3 plumbing
    def func(self, name, *sorts):
        f = self.funcs.get(name)
        if f is None:
            if len(sorts) == 1:
                k = z3.Const(name, sorts[0])
                f = lambda: k
            else:
                f = z3.Function(name, *sorts)
            self.funcs[name] = f
        return f

    def _check(self, *assumps):
        self.nqueries += 1
        t = time.perf_counter()
        r = self.solver.check(*assumps)
        self.solver_time += time.perf_counter() - t
        if r == z3.unknown:
            self.unknowns += 1
        return r

    def stop(self, exc):
        """Note that this path is over.  The interpreter under test may catch the
        exception that says so (it catches whatever a program raises); `alive` and
        `guarded` raise it again."""
        self.dead = exc
        return exc

    def alive(self):
        if self.dead is not None:
            raise self.dead

    def valid(self, cond):
        if self.mode == "conc":
            return bool(cond)
        return self._check(z3.Not(cond)) == z3.unsat

    def assume(self, cond):
        if self.mode == "conc":
            if not cond:
                raise self.stop(Infeasible())
            return
        if isinstance(cond, bool):
            if not cond:
                raise self.stop(Infeasible())
            return
        self.solver.add(cond)
        if self._check() == z3.unsat:
            raise self.stop(Infeasible())

    def branch(self, cond):
        """Fork on a z3 Bool; returns a Python bool."""
        self.alive()
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.decisions):
            taken, alt = self.decisions[self.pos]
            self.pos += 1
            self.trail.append((taken, alt))
            self.solver.add(cond if taken else z3.Not(cond))
            return taken
        can_t = self._check(cond) != z3.unsat
        can_f = self._check(z3.Not(cond)) != z3.unsat
        if not can_t and not can_f:
            raise self.stop(Infeasible())
        taken = can_t
        self.pos += 1
        self.trail.append((taken, can_t and can_f))
        self.decisions.append((taken, can_t and can_f))
        self.solver.add(cond if taken else z3.Not(cond))
        return taken

    def concretise(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        if self.mode == "conc":
            raise HarnessError("symbolic int in concrete mode")
        n = 0
        while True:
            n += 1
            if n > ENUM_CAP:
                self.enum_truncated = True
                raise self.stop(Infeasible())
            if self.pos < len(self.decisions):
                # replaying a decision of an earlier execution: (taken, alt, value)
                rec = self.decisions[self.pos]
                taken, v = rec[0], rec[2]
                self.pos += 1
                self.trail.append(rec)
                self.solver.add(t == v if taken else t != v)
                if taken:
                    return v
                continue
            v = None
            for p in (0, 1, 2, 255, 256, 257, 65535, 65536):
                if self._check(t == p) == z3.sat:
                    v = p
                    break
            if v is None:
                if self._check() != z3.sat:
                    raise self.stop(Infeasible())
                v = self.solver.model().eval(t, model_completion=True).as_long()
            can_f = self._check(t != v) != z3.unsat
            rec = (True, can_f, v)
            self.pos += 1
            self.trail.append(rec)
            self.decisions.append(rec)
            self.solver.add(t == v)
            return v

    # -- draws
    def int(self, name, lo=None, hi=None):
        """Symbolic integer input in [lo, hi]."""
        if self.mode == "conc":
            v = self.model.get(name, lo if lo is not None else 0)
            self.draws[name] = v
            return v
        if name in self.draws:
            return SymInt(self.draws[name])
        v = z3.Int(name)
        self.draws[name] = v
        if lo is not None:
            self.solver.add(v >= lo)
        if hi is not None:
            self.solver.add(v <= hi)
        return SymInt(v)

    def bool(self, name):
        """Symbolic boolean input, forked at once."""
        if self.mode == "conc":
            v = bool(self.model.get(name, False))
            self.draws[name] = v
            return v
        if name not in self.draws:
            self.draws[name] = z3.Bool(name)
        return self.branch(self.draws[name])

    def choose(self, name, options):
        """Symbolic choice among concrete options, forked at once."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        if self.mode == "conc":
            return options[int(i) if 0 <= int(i) < len(options) else 0]
        for k in range(len(options) - 1):
            if self.branch(i.t == k):
                return options[k]
        return options[-1]

    def _occname(self, name):
        n = self.occ.get(name, 0)
        self.occ[name] = n + 1
        return name if n == 0 else "%s#%d" % (name, n)

    def draw_bool(self, name, ev=None):
        if ev is not None:
            self.event(*ev)
            if self.faults and ev[0] in self.faults:
                self.maybe_raise(name)
        return self.bool(self._occname(name))

    def event(self, *ev):
        self.alive()
        self.events.append(tuple(ev))

    def maybe_raise(self, name, exc=SymRaise):
        """With a fault policy, a symbolic choice whether this operation raises."""
        if not self.faults:
            return
        key = name.split("(")[0]
        if self.faults is not True and key not in self.faults:
            return
        if self.bool(self._occname("raises[%s]" % name)):
            raise exc(name)

    def obj(self, name, cls=None):
        return (cls or Obj)((name,))

    # -- running code
    def run(self, thunk):
        """Run `thunk`, giving an Outcome with the events it produced."""
        self.steps = 0
        saved, self.events = self.events, []
        socc, self.occ = self.occ, {}
        try:
            v = thunk()
            if self.dead is not None:
                raise self.dead
            return Outcome("ret", v, self.events)
        except FetchAt as f:
            return Outcome("fetch", f.addr, self.events)
        except PathTimeout:
            self.dead = None
            _arm(PATH_TIMEOUT)
            return Outcome("timeout", None, self.events)
        except (PathStop, HarnessError):
            raise
        except BaseException as e:  # noqa
            if self.dead is not None:
                # the interpreter caught what ends this path
                if isinstance(self.dead, PathTimeout):
                    self.dead = None
                    _arm(PATH_TIMEOUT)
                    return Outcome("timeout", None, self.events)
                raise self.dead
            if os.environ.get("SYMX_TB"):
                traceback.print_exc()
            return Outcome("exc", e, self.events)
        finally:
            self.events = saved
            self.occ = socc

    # -- assertions
    def formula_eq(self, a, b):
        """z3 formula / bool for 'a equals b' as observed values."""
        if a is b:
            return True
        if isinstance(a, Term) or isinstance(b, Term):
            if not (isinstance(a, Term) and isinstance(b, Term)):
                return False
            ta, tb = term_of(a), term_of(b)
            if self.mode == "conc":
                return ta == tb
            return term_z3(ta, self) == term_z3(tb, self)
        if isinstance(a, SymInt) or isinstance(b, SymInt):
            if type(a) is bool or type(b) is bool:
                return False
            la, lb = _lift(a), _lift(b)
            if la is None or lb is None:
                return False
            return la == lb
        if isinstance(a, BaseException) and isinstance(b, BaseException):
            if type(a) is not type(b):
                return False
            if isinstance(a, SymRaise):
                return self.formula_eq(a.args, b.args)
            return True
        if type(a) is not type(b):
            return False
        if type(a).__name__ == "P" and type(a).__module__ == "symx.lib":
            return type(a).same(a, b)
        if isinstance(a, (tuple, list)):
            if len(a) != len(b):
                return False
            return self.conj([self.formula_eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, dict):
            if list(map(_dk, a.keys())) != list(map(_dk, b.keys())):
                return False
            return self.conj([self.formula_eq(x, y) for x, y in zip(a.values(), b.values())])
        if isinstance(a, (set, frozenset)):
            return {_dk(x) for x in a} == {_dk(x) for x in b}
        if isinstance(a, slice):
            return self.formula_eq((a.start, a.stop, a.step), (b.start, b.stop, b.step))
        try:
            r = a == b
        except Exception:
            return False
        return bool(r)

    def conj(self, fs):
        out = []
        for f in fs:
            if f is True:
                continue
            if f is False:
                return False
            out.append(f)
        if not out:
            return True
        if self.mode == "conc":
            return all(out)
        return z3.And(out)

    def disj(self, fs):
        if any(f is True for f in fs):
            return True
        fs = [f for f in fs if f is not False]
        if not fs:
            return False
        return z3.Or(fs) if self.mode == "sym" else any(fs)

    def eq(self, actual, expected, label):
        return self.ok(self.formula_eq(actual, expected), label,
                       lambda: "actual %s, expected %s" % (short(actual), short(expected)))

    def same(self, got, want, label, events=True, value=True):
        """Outcome equality: kind, value (or exception) and event trace."""
        f = [got.kind == want.kind]
        if value and got.kind == want.kind:
            f.append(self.formula_eq(got.value, want.value))
        if events:
            f.append(self.formula_eq(got.events, want.events))
        return self.ok(self.conj(f), label, lambda: "got %s; want %s" % (short(got), short(want)))

    def ok(self, cond, label, detail=None):
        self.asserts += 1
        if isinstance(cond, SymInt):
            cond = bool(cond)
        if detail is None:
            det = lambda: ""
        elif callable(detail):
            det = detail
        else:
            det = lambda: str(detail)
        if self.mode == "conc":
            if not cond:
                self.violations.append(Violation(label, dict(self.draws), det(), None))
            return bool(cond)
        if cond is True:
            r = z3.unsat
            # the obligation `pc and not true` is trivially unsat
        elif cond is False:
            r = self._check()
        else:
            r = self._check(z3.Not(cond))
        if r == z3.unsat:
            return True
        if r == z3.unknown:
            self.notes.append("unknown: " + label)
            return True
        m = self.solver.model()
        self.violations.append(Violation(label, self.model_values(m), det(), list(self.trail)))
        return False

    def reach(self, label):
        """Reachability witness (vacuity guard)."""
        self.reached.append(label)

    def model_values(self, m):
        out = {}
        for name, v in self.draws.items():
            val = m.eval(v, model_completion=True)
            if z3.is_bool(val):
                out[name] = z3.is_true(val)
            else:
                out[name] = val.as_long()
        return out


def _dk(k):
    if isinstance(k, Term):
        return term_of(k)
    return k


def short(x, n=600):
    try:
        s = repr(x)
    except Exception as e:  # noqa
        s = "<unprintable %s>" % e
    return s if len(s) <= n else s[:n] + "..."


def guarded(cls):
    """The interpreter class `cls`, leaving at the next instruction when the path
    being explored is over."""
    if "dispatch" not in dir(cls):
        return cls

    class Guarded(cls):
        def dispatch(self, *args, **kw):
            why = super().dispatch(*args, **kw)
            if _CUR is not None:
                _CUR.alive()
                _CUR.steps += 1
                if _CUR.steps > MAX_STEPS:
                    _CUR.stop(PathTimeout())
            return why

    Guarded.__name__ = cls.__name__
    Guarded.__qualname__ = cls.__qualname__
    return Guarded


# ------------------------------------------------------------------ exploration
REPO_PKG = os.path.join(os.environ.get("XPY_REPO", "/repo"), "xpython") + os.sep


def in_repo(e):
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO_PKG):
            return True
        tb = tb.tb_next
    return False


def _arm(seconds):
    """Time out after so much processor time; the clock on the wall counts only for
    a run that waits (a machine may be paused or busy with something else)."""
    signal.setitimer(signal.ITIMER_PROF, seconds, 0.5 if seconds else 0)
    signal.setitimer(signal.ITIMER_REAL, 8 * seconds, 0.5 if seconds else 0)


def _handlers(prof, alrm):
    return signal.signal(signal.SIGPROF, prof), signal.signal(signal.SIGALRM, alrm)


def _alarm(sig, frm):
    e = PathTimeout()
    if _CUR is not None:
        _CUR.stop(e)
    raise e


class Result:
    def __init__(self, hid):
        self.hid = hid
        self.paths = 0
        self.decisions = 0
        self.queries = 0
        self.asserts = 0
        self.solver_time = 0.0
        self.validated = 0
        self.violations = []     # confirmed
        self.unconfirmed = []
        self.errors = []
        self.truncated = []
        self.samples = []
        self.reached = {}
        self.functions = []
        self.wall = 0.0
        self.nonvacuous = 0


def explore(hid, fn, max_paths=4000, max_seconds=120.0, validate=True, profile=False):
    """Run harness `fn(ctx)` over all feasible paths."""
    global _CUR
    res = Result(hid)
    t0 = time.monotonic()
    decisions = []
    seen_labels = {}
    old = _handlers(_alarm, _alarm)
    try:
        while True:
            ctx = Ctx("sym")
            ctx.decisions = list(decisions)
            _CUR = ctx
            _arm(PATH_TIMEOUT + 15)
            feasible = True
            try:
                fn(ctx)
                if ctx.dead is not None:
                    raise ctx.dead
            except Infeasible:
                feasible = False
            except PathTimeout:
                res.truncated.append("path timeout")
            except FetchAt:
                feasible = False
            except HarnessError as e:
                res.errors.append("harness error: %s" % e)
            except Exception as e:  # noqa
                if in_repo(e):
                    # the code under test raised where the harness expects it not to
                    ctx.ok(False, "unexpected %s" % type(e).__name__, str(e))
                else:
                    res.errors.append("harness exception: %s\n%s" % (e, traceback.format_exc()[-1500:]))
            finally:
                _arm(0)
            res.queries += ctx.nqueries
            res.solver_time += ctx.solver_time
            res.asserts += ctx.asserts
            res.decisions += len(ctx.trail)
            if ctx.enum_truncated and "enumeration cap" not in res.truncated:
                res.truncated.append("enumeration cap")
            if ctx.unknowns:
                res.truncated.append("solver unknown")
            for n in ctx.notes:
                res.truncated.append(n)
            if feasible:
                res.paths += 1
                for l in ctx.reached:
                    res.reached[l] = res.reached.get(l, 0) + 1
                if ctx.asserts:
                    res.nonvacuous += 1
                mv = None
                try:
                    if ctx._check() == z3.sat:
                        mv = ctx.model_values(ctx.solver.model())
                except Exception:
                    mv = None
                if len(res.samples) < 3 and mv is not None:
                    res.samples.append({"harness": hid, "inputs": {k: v for k, v in list(mv.items())[:12]},
                                        "decisions": len(ctx.trail), "assertions": ctx.asserts})
                sym_labels = {v.label for v in ctx.violations}
                # confirm the counterexamples concretely
                for v in ctx.violations:
                    if v.label in seen_labels and seen_labels[v.label] >= 3:
                        continue
                    c2 = replay(fn, v.model)
                    hit = [w for w in c2.violations if w.label == v.label]
                    if hit:
                        seen_labels[v.label] = seen_labels.get(v.label, 0) + 1
                        res.violations.append({"harness": hid, "label": v.label, "model": v.model,
                                               "detail": hit[0].detail})
                    elif not _again(fn, decisions, v.label):
                        # neither the real code nor the same path shows it: a disturbed run
                        res.truncated.append("not repeatable")
                    else:
                        res.unconfirmed.append({"harness": hid, "label": v.label, "model": v.model,
                                                "detail": v.detail,
                                                "conc": [w.label for w in c2.violations], "err": c2.notes})
                # validate a concrete run of this path: must agree with the verdict
                if validate and mv is not None and not sym_labels:
                    c3 = replay(fn, mv)
                    if c3.violations or c3.notes:
                        c3 = replay(fn, mv)
                    if c3.violations or c3.notes:
                        for w in c3.violations:
                            # a concrete violation is a violation, whatever the encoding said
                            if seen_labels.get(w.label, 0) < 3:
                                seen_labels[w.label] = seen_labels.get(w.label, 0) + 1
                                res.violations.append({"harness": hid, "label": w.label, "model": mv,
                                                       "detail": w.detail})
                        if c3.notes and not c3.violations:
                            res.errors.append("concrete validation: %s" % c3.notes)
                    else:
                        res.validated += 1
            # next path
            decisions = ctx.decisions[: len(ctx.trail)]
            while decisions:
                d = decisions[-1]
                if d[0] is True and d[1]:
                    decisions[-1] = (False, False) + tuple(d[2:])
                    break
                decisions.pop()
            if not decisions:
                break
            if res.paths >= max_paths:
                res.truncated.append("path budget %d" % max_paths)
                break
            if time.monotonic() - t0 > max_seconds:
                res.truncated.append("time budget %ds" % max_seconds)
                break
    finally:
        _arm(0)
        _handlers(*old)
        _CUR = None
    res.wall = time.monotonic() - t0
    return res


def _again(fn, decisions, label):
    """Does the same path violate the same assertion when it is explored once more?"""
    global _CUR
    prev = _CUR
    _CUR = ctx = Ctx("sym")
    ctx.decisions = list(decisions)
    _arm(PATH_TIMEOUT + 15)
    try:
        fn(ctx)
    except (PathStop, HarnessError):
        pass
    except Exception as e:  # noqa
        if in_repo(e):
            ctx.ok(False, "unexpected %s" % type(e).__name__, str(e))
    finally:
        _arm(0)
        _CUR = prev
    return any(v.label == label for v in ctx.violations)


def replay(fn, model):
    """Run the harness concretely (no solver) on the inputs in `model`."""
    global _CUR
    prev = _CUR
    c = Ctx("conc", model)
    _CUR = c
    old = _handlers(_alarm, _alarm)
    _arm(PATH_TIMEOUT)
    try:
        fn(c)
    except Infeasible:
        c.notes.append("infeasible in replay")
    except PathTimeout:
        c.notes.append("timeout in replay")
    except PathStop as e:
        c.notes.append("stop %r in replay" % e)
    except HarnessError as e:
        c.notes.append("harness error %s" % e)
    except Exception as e:  # noqa
        if in_repo(e):
            c.ok(False, "unexpected %s" % type(e).__name__, "%s: %s" % (type(e).__name__, e))
        else:
            c.notes.append("exception in replay: %s %s" % (e, traceback.format_exc()[-800:]))
    finally:
        _arm(0)
        _handlers(*old)
        _CUR = prev
    return c
