"""C11 raise raises exactly the exception that was written."""
from symx.lib import *  # noqa
from symx.anyvalue import any_checks

PROP = "C11"
ASSUMPTIONS = ["source programs are compiled for each version by symx/pyc.py (3.12: the host's own compiler)",
               "3.x reference: the host Python; 2.x `raise A, B, C`: the rules of the 2.7 language reference, written "
               "down in ref2() below", "old-style classes do not exist on the host"]
BOUNDS = ("every combination of 12 kinds of raised operand and 9 kinds of cause (3.x), or 12 kinds of operand, 9 kinds of "
          "value and 3 kinds of traceback (2.x); bare raise at every place of 9 program shapes, faults symbolic")


class Need(Exception):
    def __init__(self, a, b):
        Exception.__init__(self, a, b)


class BadInit(Exception):
    def __init__(self, *a):
        engine.cur().event("BadInit", len(a))
        raise E2("init")


class NotMade(Exception):
    def __new__(cls, *a):
        return 7


class Other(Exception):
    def __new__(cls, *a):
        return E2("other")


class Counted(Exception):
    def __init__(self, *a):
        engine.cur().event("made", *a)
        Exception.__init__(self, *a)


class Base(BaseException):
    pass


def describe(e, cause=True):
    r = (type(e).__name__, tuple(map(str, e.args)) if not isinstance(e, TypeError) else "?")
    if cause:
        r += (None if e.__cause__ is None else describe(e.__cause__, False), e.__suppress_context__)
    return r


KINDS = {"E1": E1, "E1i": E1("i"), "need": Need, "badinit": BadInit, "notmade": NotMade, "other": Other,
         "counted": Counted, "base": Base, "basei": Base(1, 2), "keyerr": KeyError("k"), "int": 1, "none": None, "str": "E1",
         "intclass": int, "obj": object(), "stop": StopIteration(3), "exit": SystemExit}

CAUSES = [k for k in KINDS if k != "notmade"]     # CPython itself stores such a cause unchecked


def fresh(k):
    x = KINDS[k]
    return type(x)(*x.args) if isinstance(x, BaseException) else x


def raise3(v, cause):
    src = '''
def main():
    try:
        raise A%s
    except BaseException as e:
        return describe(e)
R = main()
''' % (" from B" if cause else "")

    def extra(env):
        A = fresh(env.ctx.choose("A", [k for k in KINDS if k != "other" or not cause]))
        B = fresh(env.ctx.choose("B", CAUSES)) if cause else None
        return {"A": A, "B": B, "describe": describe}
    return src_check(v, "raise-from" if cause else "raise", src, extra=extra, label="exception")


def uncaught(v, cause):
    """The exception that leaves the frame."""
    src = "def f():\n    raise A%s\nf()" % (" from B" if cause else "")

    def fn(ctx):
        a, b = ctx.choose("A", [k for k in KINDS if k != "other" or not cause]), ctx.choose("B", CAUSES) if cause else "none"

        def go(on):
            def thunk():
                env = Env(ctx)
                ns = env.ns()
                ns.update(A=fresh(a), B=fresh(b))
                try:
                    if on:
                        execute(v.vm(), compiled(v, src), ns, ns)
                    else:
                        exec(compiled(None, src), ns)
                except BaseException as e:
                    if isinstance(e, (engine.PathStop, engine.HarnessError)):
                        raise
                    return describe(e)
                return "no exception"
            return ctx.run(thunk)
        ctx.same(go(1), go(0), "exception")
    return H("%s/uncaught%s" % (v, "-from" if cause else ""), fn, str(v))


def ref2(typ, val=None, tb=None):
    """Python 2's `raise typ, val, tb`"""
    if tb is not None:
        raise TypeError("raise: arg 3 must be a traceback or None")
    while isinstance(typ, tuple) and typ:
        typ = typ[0]
    if isinstance(typ, type) and issubclass(typ, BaseException):
        if isinstance(val, typ):
            return val
        e = typ() if val is None else typ(*val) if isinstance(val, tuple) else typ(val)
        if not isinstance(e, BaseException):
            raise TypeError("calling %s() should have returned an instance of BaseException" % typ)
        return e
    if isinstance(typ, BaseException):
        if val is not None:
            raise TypeError("instance exception may not have a separate value")
        return typ
    raise TypeError("exceptions must be old-style classes or derived from BaseException")


K2 = dict(KINDS, tup=(E1, E2), nest=((E3,), 2), empty=())
V2 = {"none": None, "str": "v", "tuple": (1, 2), "tuple1": ("x",), "empty": (), "inst": E1("same"), "sub": E3("sub"),
      "e2": E2("different"), "int": 0, "list": [1]}


def raise2(v, n):
    src = '''
def main():
    try:
        raise raise2(%s)
    except BaseException as e:
        return describe(e)
R = main()
''' % ", ".join("ABC"[:n])

    def extra(env):
        A = K2[env.ctx.choose("A", list(K2))]
        B = V2[env.ctx.choose("B", list(V2))] if n > 1 else None
        C = env.ctx.choose("C", [None, 5, "tb"]) if n > 2 else None
        return {"A": A, "B": B, "C": C, "describe": lambda e: describe(e, False), "raise2": ref2}
    return src_check(v, "raise-%d" % n, src, extra=extra, label="exception")


BARE = {
    "in-handler": ('''
def main():
    try:
        try:
            ev("b")
        except E1:
            ev("h")
            raise
    except (E1, E2) as e:
        return str(e)
R = main()
''', {"ev": (E1, E2)}),
    "in-called": ('''
def again(): raise
def main():
    try:
        try:
            ev("b")
        except E1:
            again()
    except E1 as e:
        return str(e)
R = main()
''', {"ev": (E1, E2)}),
    "conditional": ('''
def main():
    try:
        for i in it("x", 2):
            try:
                ev("b")
            except (E1, E2):
                if c(1): raise
                if c(2): continue
                if c(3): break
        return "end"
    except E1 as e:
        return str(e)
R = main()
''', {("ev", "b"): (E1, E2)}),
}
BARE3 = {
    "nothing": ('''
def main():
    try:
        raise
    except RuntimeError:
        return "runtime"
R = main()
''',),
    "after-handler": ('''
def main():
    try:
        ev("b")
    except E1:
        ev("h")
    try:
        raise
    except RuntimeError as e:
        return "runtime"
R = main()
''', {("ev", "b"): (E1,)}),
    "after-inner": ('''
def main():
    try:
        try:
            ev("b")
        except E1:
            try:
                ev("h")
            except E2:
                if c(1): raise
                ev("hh")
            raise
    except E1 as e:
        return str(e)
    except E2 as e:
        return str(e)
R = main()
''', {("ev", "b"): (E1,), ("ev", "h"): (E2,)}),
    "after-called": ('''
def helper():
    try: ev("i")
    except E2: return "handled"
    return "none"
def main():
    try:
        try:
            ev("b")
        except E1:
            helper()
            raise
    except E1 as e:
        return str(e)
R = main()
''', {("ev", "b"): (E1,), ("ev", "i"): (E2, E3)}),
    "in-finally": ('''
def main():
    try:
        try:
            ev("b")
        finally:
            if c(1): raise
    except (E1, RuntimeError) as e:
        return type(e).__name__
R = main()
''', {("ev", "b"): (E1,)}),
    "saved": ('''
def main():
    saved = None
    try:
        ev("b")
    except E1 as e:
        saved = e
    if saved is not None:
        try:
            raise saved
        except E1 as f:
            return f is saved
R = main()
''', {("ev", "b"): (E1,)}),
    "chain": ('''
def main():
    try:
        try:
            ev("b")
        except E1 as e:
            if c(1): raise E2("two") from e
            if c(2): raise E2("two") from None
            raise E2("plain")
    except E2 as f:
        k = f.__cause__
        return (str(f), k is not None and str(k), f.__suppress_context__)
R = main()
''', {("ev", "b"): (E1,)}),
    "reraise-keeps-identity": ('''
def main():
    e0 = E1("one")
    try:
        try:
            raise e0
        except E1:
            raise
    except E1 as e:
        return e is e0
R = main()
''',),
}
ASSERT = {
    "assert": '''
def main():
    try:
        assert T(1)
        return "fine"
    except AssertionError as e:
        return e.args
R = main()
''',
    "assert-message": ('''
def main():
    try:
        assert T(1), ev("message")
        return "fine"
    except AssertionError as e:
        return e.args
    except E1:
        return "E1"
R = main()
''', {"ev": (E1,)}),
}


# what __context__ an exception has
CONTEXT = {"chain": (r"""
import sys
class Plain: pass
class Wrong(Exception):
    def __new__(cls): return 5
class M:
    def __enter__(self): return self
    def __exit__(self, *a): undefined_in_exit
    def __getitem__(self, i): raise KeyError(i)
class OO:
    @property
    def p(self): raise ValueError
O = OO()
stored = KeyError("stored")
def me():
    try: raise OSError
    except OSError: return IndexError()
def g1():
    yield 1
    raise LookupError
def g2():
    try: raise OSError
    except OSError:
        yield 1
        raise LookupError
def gs():
    yield 1
    next(iter([]))
def fail():
    ev("fail")
def chain(e):
    r = []
    while e is not None and len(r) < 9:
        r.append((type(e).__name__, type(e.__cause__).__name__))
        e = e.__context__
    return r
def f(k):
    if k == 0: raise KeyError(1)
    elif k == 1: 1 // 0
    elif k == 2: undefined
    elif k == 3: z; z = 1
    elif k == 4: Plain().x
    elif k == 5: f()
    elif k == 6: raise 5
    elif k == 7: raise KeyError from ValueError
    elif k == 8: raise KeyError from None
    elif k == 9: raise
    elif k == 10: assert 0, "x"
    elif k == 11: next(iter([]))
    elif k == 12: int("x")
    elif k == 13: {}["x"]
    elif k == 14: [][3]
    elif k == 15: a, b = 1,
    elif k == 16: del w
    elif k == 17: (lambda a: a)(b=1)
    elif k == 18: f(**5)
    elif k == 19: f(*5)
    elif k == 20: 'a' + 5
    elif k == 21: iter(5)
    elif k == 22: hash([])
    elif k == 23: fail()
    elif k == 24: import nonexistent_module
    elif k == 25: from sys import nonexistent_name
    elif k == 26:
        for x in g1(): pass
    elif k == 27: raise stored
    elif k == 28: raise me()
    elif k == 29: raise Wrong
    elif k == 30:
        with M(): raise KeyError
    elif k == 31:
        try: raise IndexError
        finally: undefined
    elif k == 32:
        try: raise IndexError
        except IndexError: pass
        raise KeyError
    elif k == 33:
        try: raise IndexError
        except IndexError:
            try: f(1)
            finally: f(0)
    elif k == 34:
        try: f(1)
        except ZeroDivisionError:
            for x in g1(): pass
    elif k == 35:
        x = g2()
        next(x)
        next(x)
    elif k == 36:
        class Q(5): pass
    elif k == 37:
        global qq
        del qq
    elif k == 38:
        pass
    elif k == 39:
        x = list(map(f, [0]))
    elif k == 40:
        try: raise stored
        except KeyError:
            try: raise ValueError
            except ValueError: raise stored
    elif k == 41:
        def h(): return free
        h(); free = 1
    elif k == 42:
        for x in gs(): pass
    elif k == 43: eval("1 // 0")
    elif k == 44: exec("raise KeyError")
    elif k == 45: f(0)
    elif k == 46: O.p
    elif k == 47: M()[1]
    elif k == 48: sorted([1, 0], key=f)
def again(k):
    try: f(k)
    finally: ev("again")
R = []
k = n(1, 0, 48)
def one():
    try: f(k)
    except Exception: R.append(chain(sys.exc_info()[1]))
def two():
    try: raise OSError
    except OSError: one()
def three():
    try: one()
    finally:
        try: raise OSError
        except OSError:
            try: again(k)
            except BaseException: R.append(chain(sys.exc_info()[1]))
        R.append(sys.exc_info()[0])
[one, two, three][n(2)]()
""", {("ev", "fail"): (E1,)}, {"lo": (3, 7)})}
CONTEXT["chain-before-3.7"] = (CONTEXT["chain"][0].replace("for x in gs(): pass", "pass"), {("ev", "fail"): (E1,)}, {"lo": (3, 0), "hi": (3, 7)})


def harnesses():
    hs = []
    for v in ALL:
        if v >= (3, 0):
            hs += [raise3(v, False), raise3(v, True)] if v.name != "pypy3.8" else []
            hs += [uncaught(v, False), uncaught(v, True)]
        else:
            hs += [raise2(v, 1), raise2(v, 2), raise2(v, 3)]
    hs += src_checks(ALL, BARE, prefix="bare-")
    hs += src_checks([v for v in ALL if v >= (3, 0)], BARE3, prefix="bare-")
    hs += src_checks(ALL, ASSERT)
    hs += any_checks(PROP, ALL)
    hs += src_checks(ALL, CONTEXT, prefix="context-")
    return hs
