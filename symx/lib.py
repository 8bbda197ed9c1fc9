"""Running assembled micro-programs on the real VM, and comparing with references."""
from symx import engine
from symx.asm import *  # noqa
from symx.engine import AttrObj, InplaceObj, Obj, SymInt, SymRaise, Term, term_of, term_str  # noqa
from symx.runner import H  # noqa

BUILTINS = {"None": None, "True": True, "False": False}


def builtins_ns():
    import builtins

    return dict(vars(builtins))


def normalise(vm):
    t = vm.last_exception
    et, ev = t[0], t[1]
    if isinstance(ev, BaseException):
        return ev
    try:
        if ev is None:
            return et()
        if isinstance(ev, tuple):
            return et(*ev)
        return et(ev)
    except Exception:
        return RuntimeError("unprintable %r %r" % (et, ev))


def execute(vm, code, g=None, l=None, closure=None):
    """Run `code` on `vm`; the program's own exception comes out as itself."""
    from xpython.vm import PyVMUncaughtException

    g = {"__builtins__": dict(BUILTINS), "__name__": "symx"} if g is None else g
    try:
        frame = vm.make_frame(code, f_globals=g, f_locals={} if l is None else l)
        return vm.eval_frame(frame)
    except PyVMUncaughtException:
        e = normalise(vm)
    raise e


def program(v, body, ins=(), outs=1, **kw):
    """LOAD the named inputs, run `body`, return the tuple of the top `outs` stack
    entries preceded by a sentinel, so that a wrong stack effect is observed."""
    instrs = [("LOAD_NAME", N("_sentinel"))]
    instrs += [("LOAD_NAME", N(n)) for n in ins]
    instrs += list(body)
    instrs += [("BUILD_TUPLE", outs + 1), ("RETURN_VALUE",)]
    return make(v, instrs, **kw)


SENT = "<sentinel>"


def run_program(ctx, v, code, env, g=None, vm=None, cls=None):
    """Outcome of running a `program`; the sentinel is checked and removed."""
    def thunk():
        m = vm or v.vm(cls)
        l = {"_sentinel": SENT}
        l.update(env)
        r = execute(m, code, g, l)
        if type(r) is not tuple or not r or r[0] is not SENT:
            return ("stack-corrupted", r)
        return r[1:]
    return ctx.run(thunk)


def ref(ctx, thunk):
    return ctx.run(thunk)


def special(ctx, owner, name):
    """A special method whose every call may return NotImplemented, a value, or raise."""
    def method(self, *args):
        c = engine.cur()
        c.event(name, self, *args)
        how = c.choose(c._occname("%s.%s" % (owner, name)), ["value", "notimpl", "raise"])
        if how == "notimpl":
            return NotImplemented
        if how == "raise":
            raise SymRaise("%s.%s" % (owner, name))
        return Term((name, term_of(self)) + tuple(term_of(a) if isinstance(a, Term) else ("py", repr(a)) for a in args))
    return method


def proto(ctx, name, methods, bases=(Term,)):
    """An object whose class defines each of `methods` or not, as the solver chooses."""
    ns = {"__hash__": object.__hash__}
    for m in methods:
        if ctx.bool("%s.has%s" % (name, m)):
            ns[m] = special(ctx, name, m)
    return type("P_" + name, bases, ns)((name,))


def harness(hid, group, **kw):
    def deco(fn):
        return H(hid, fn, group, **kw)
    return deco


class SymCode:
    """co_code with symbolic bytes at some offsets."""

    def __init__(self, code, sym):
        self.code, self.sym = code, sym

    def __len__(self):
        return len(self.code)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return bytes(int(self[k]) for k in range(*i.indices(len(self.code))))
        if isinstance(i, SymInt):
            i = i.__index__()
        if i in self.sym:
            return self.sym[i]
        return self.code[i]

    def __iter__(self):
        return (self[i] for i in range(len(self.code)))


def patch(ctx, code, op, values, nth=0):
    """Give the operand of the nth `op` instruction the symbolic low byte values[0]
    (and, before 3.6, high byte values[1])."""
    off = [o for n, o in code.asm.offsets if n == op][nth]
    sym = {off + 1 + k: x for k, x in enumerate(values)}
    if ctx.mode == "conc":
        b = bytearray(code.co_code)
        for k, x in sym.items():
            b[k] = x
        code.co_code = bytes(b)
    else:
        code.co_code = SymCode(code.co_code, sym)
    return code


class Pool(tuple):
    """A constant/name pool that has an entry for every index below `size`;
    entry i is make(i), with i possibly symbolic."""

    def __new__(cls, size, mk, pre=()):
        self = tuple.__new__(cls, pre)
        self.size, self.mk, self.pre = size, mk, tuple(pre)
        return self

    def __len__(self):
        return self.size

    def __iter__(self):
        return iter(self.pre)

    def __contains__(self, x):
        return x in self.pre

    def index(self, x):
        return self.pre.index(x)

    def __add__(self, other):
        return self

    def __radd__(self, other):
        return self

    def __getitem__(self, i):
        if isinstance(i, slice):
            return tuple(self.mk(k) for k in range(*i.indices(self.size)))
        if i < 0:
            i = i + self.size
            if i < 0:
                raise IndexError("pool index out of range")
        if i >= self.size:
            raise IndexError("pool index out of range")
        if not isinstance(i, SymInt) and i < len(self.pre):
            return self.pre[i]
        return self.mk(i)


class SName(str):
    """A name whose identity is an index."""

    def __new__(cls, i):
        s = str.__new__(cls, "n%s" % ("#" if isinstance(i, SymInt) else i))
        s.i = i
        return s


class LazyNS(dict):
    """A namespace that binds every SName to an object naming it."""

    def __init__(self, what, *a):
        dict.__init__(self, *a)
        self.what = what

    def __contains__(self, k):
        return isinstance(k, SName) or dict.__contains__(self, k)

    def __getitem__(self, k):
        if isinstance(k, SName):
            return Obj((self.what, k.i))
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        return self[k] if k in self else d


class AnyKey(dict):
    """Line table stand-in: no line starts anywhere, whatever the offset."""

    def get(self, k, d=None):
        return d

    def __contains__(self, k):
        return False


class SymBytes(tuple):
    """A slice of code with symbolic bytes."""

    def __getitem__(self, i):
        r = tuple.__getitem__(self, i)
        return SymBytes(r) if isinstance(i, slice) else r

    def __bytes__(self):
        return bytes(int(x) for x in self)


class FetchCode:
    """co_code with symbolic operand bytes; fetching outside the known program or at
    a symbolic address stops the run and reports the address."""

    def __init__(self, code, sym):
        self.code, self.sym = code, sym

    def __len__(self):
        return 1 << 40

    def __getitem__(self, i):
        if isinstance(i, SymInt):
            raise engine.FetchAt(i)
        if isinstance(i, slice):
            lo, hi = i.start or 0, i.stop
            if isinstance(lo, SymInt) or isinstance(hi, SymInt):
                raise engine.FetchAt(lo)
            hi = len(self.code) if hi is None else min(hi, len(self.code))
            return SymBytes([self[k] for k in range(lo, hi, i.step or 1)])
        if i < 0 or i >= len(self.code):
            raise engine.FetchAt(i)
        return self.sym.get(i, self.code[i])


# ------------------------------------------------------------ source programs
class E1(SymRaise):
    pass


class E2(E1):
    pass


class E3(SymRaise):
    pass


class Cond:
    """A value whose truth is a symbolic draw; may raise when tested."""

    def __init__(self, env, k):
        self.env, self.k = env, k

    def __repr__(self):
        return "<Cond %s>" % (self.k,)

    def __bool__(self):
        self.env.step("bool", self.k)
        return self.env.ctx.bool(self.env.ctx._occname("c%s" % (self.k,)))

    def __eq__(self, o):
        return isinstance(o, Cond) and o.k == self.k

    __hash__ = object.__hash__


class It:
    """An iterator of symbolic length <= n yielding (k, i); a step may raise."""

    def __init__(self, env, k, n):
        self.env, self.k, self.n, self.i, self.begun = env, k, n, 0, False

    def __iter__(self):
        if not self.begun:      # asking an iterator for itself again is no observable step
            self.begun = True
            self.env.step("iter", self.k)
        return self

    def __next__(self):
        self.env.step("next", self.k)
        if self.i < self.n and self.env.ctx.bool(self.env.ctx._occname("more%s" % self.k)):
            self.i += 1
            return (self.k, self.i)
        raise StopIteration

    next = __next__


class P:
    """A falsy value nobody may look at: whatever touches it is an event."""

    def __init__(self, env, k):
        object.__setattr__(self, "_p", (env, k))

    def __getattribute__(self, name):
        env, k = object.__getattribute__(self, "_p")
        if name != "__class__":     # isinstance() may ask
            env.ctx.event("touched", k, name)
        return object.__getattribute__(self, name)

    def _touch(what, result=None):
        def f(self, *a):
            env, k = object.__getattribute__(self, "_p")
            env.ctx.event("touched", k, what)
            return result(self) if callable(result) else result
        return f

    __bool__ = _touch("bool", False)
    __len__ = _touch("len", 0)
    __eq__ = _touch("eq", True)
    __ne__ = _touch("ne", False)
    __hash__ = _touch("hash", 7)
    __call__ = _touch("call")
    __iter__ = _touch("iter", lambda s: iter(()))
    __contains__ = _touch("contains", False)
    __repr__ = _touch("repr", "<P>")
    __format__ = _touch("format", "<P>")
    __setattr__ = _touch("setattr")
    __delattr__ = _touch("delattr")
    __getitem__ = _touch("getitem")
    __copy__ = _touch("copy", lambda s: s)
    __deepcopy__ = _touch("deepcopy", lambda s: s)

    @staticmethod
    def same(a, b):
        return object.__getattribute__(a, "_p")[1] == object.__getattribute__(b, "_p")[1]


class CM:
    """A context manager with symbolic exit results and faults."""

    def __init__(self, env, k):
        self.env, self.k = env, k

    def __enter__(self):
        self.env.step("enter", self.k)
        return ("entered", self.k)

    def __exit__(self, t, e, tb):
        self.env.ctx.event("exit", self.k, t if t is None else t.__name__,
                           (e.args if isinstance(e, (E1, E2)) else ()) if isinstance(e, BaseException) else ("?", str(e)) if e is not None else None)
        self.env.fault("exit", self.k)
        return self.env.ctx.bool(self.env.ctx._occname("swallow%s" % self.k))


class Env:
    """What a source program can call.  `faults` says which steps may raise what:
    {step key: (exception classes)}."""

    def __init__(self, ctx, faults=None):
        self.ctx, self.faults = ctx, faults or {}

    def fault(self, what, k):
        for key in ((what, k), what, k):
            try:
                excs = self.faults.get(key)
            except TypeError:
                excs = None
            if excs:
                e = self.ctx.choose(self.ctx._occname("raise[%s,%s]" % (what, k)), (None,) + tuple(excs))
                if e is not None:
                    self.ctx.event("raising", what, k, e.__name__)
                    raise e("%s%s" % (what, k))
                return

    def step(self, what, k):
        self.ctx.event(what, k)
        self.fault(what, k)

    def ev(self, k, *a):
        """record an event, perhaps raise; the value is the key"""
        self.ctx.event("ev", k, *a)
        self.fault("ev", k)
        return k

    def c(self, k):
        """a symbolic plain bool"""
        self.ctx.event("c", k)
        return self.ctx.bool(self.ctx._occname("c%s" % (k,)))

    def T(self, k):
        return Cond(self, k)

    def it(self, k, n=2):
        return It(self, k, n)

    def cm(self, k):
        return CM(self, k)

    def n(self, k, lo=0, hi=2):
        """a small symbolic int, forked at once"""
        return self.ctx.choose("n%s" % k, range(lo, hi + 1))

    def pv(self, k):
        """any value: None, or one whose every use would be seen"""
        name = self.ctx._occname("pv%s" % (k,))
        how = self.ctx.choose(name, ("none", "p", "false"))
        return P(self, name) if how == "p" else None if how == "none" else False

    def ns(self):
        import builtins
        return {"pv": self.pv, "ev": self.ev, "c": self.c, "T": self.T, "it": self.it, "cm": self.cm, "n": self.n,
                "E1": E1, "E2": E2, "E3": E3, "__name__": "symx", "__builtins__": dict(vars(builtins))}


_CODE = {}


def compiled(v, src, filename="<symx>"):
    from symx import pyc
    k = (v.name if v is not None else None, src, filename)
    if k not in _CODE:
        try:
            _CODE[k] = compile(src, filename, "exec", dont_inherit=True) if v is None else \
                pyc.compile_for(v, src, filename)
        except pyc.Unsupported as e:
            _CODE[k] = e
    return _CODE[k]


def supported(v, src):
    from symx import pyc
    return not isinstance(compiled(v, src), pyc.Unsupported)


def run_src(ctx, v, src, faults=None, names=("R",), extra=None, vm=None, finish=None):
    """-> (outcome on the VM, outcome on the host)"""
    def go(on):
        def thunk():
            env = Env(ctx, faults)
            ns = env.ns()
            if extra:
                ns.update(extra(env))
            if on is None:
                exec(compiled(None, src), ns)
            else:
                execute(vm or v.vm(), compiled(v, src), ns, ns)
            r = tuple(ns.get(n, "<unbound>") for n in names)
            return finish(r, ns) if finish else r
        return ctx.run(thunk)
    return go(v), go(None)


def src_check(v, name, src, faults=None, names=("R",), extra=None, prefix="", tier="quick", max_paths=4000,
              finish=None, weight=1, label="behaviour"):
    def fn(ctx):
        got, want = run_src(ctx, v, src, faults, names, extra, finish=finish)
        ctx.same(got, want, label)
    return H("%s/%s%s" % (v, prefix, name), fn, str(v), tier=tier, max_paths=max_paths, weight=weight)


def src_checks(vers, table, **kw):
    """table: {name: src | (src, faults) | (src, faults, min version)}"""
    hs = []
    for v in vers:
        for name, t in table.items():
            t = (t,) if isinstance(t, str) else t
            src, faults = t[0], t[1] if len(t) > 1 else None
            opts = dict(t[2]) if len(t) > 2 else {}
            lo, hi = opts.pop("lo", None), opts.pop("hi", None)
            if (lo and v < lo) or (hi and v >= hi):
                continue
            if not supported(v, src):
                continue
            hs.append(src_check(v, name, src, faults, **dict(kw, **opts)))
    return hs
