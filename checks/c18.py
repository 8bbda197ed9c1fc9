"""C18 a run ends with a truthful status and report."""
import io
import sys

from symx.lib import *  # noqa

PROP = "C18"
ASSUMPTIONS = ["the type and text of the exception a program ends with are those the same program ends with under the host Python"]
BOUNDS = ("every version; %d program shapes x %d kinds of ending (normal, exceptions of all kinds including unprintable ones, requests "
          "to exit), standard output of two encodings, a first and a second run on one interpreter; for the host's version and 4 others "
          "also through exec_code_object, with and without a trace callback")


class Weird(Exception):
    def __str__(self):
        raise E2("no text")


class Exits(Exception):
    def __str__(self):
        raise SystemExit(3)


class NotText(Exception):
    def __str__(self):
        return 5


class Base(BaseException):
    pass


class Quiet(Exception):
    def __str__(self):
        return ""


class MetaName(type):
    pass


class Renamed(Exception):
    pass


Renamed.__name__ = "Other"

ENDS = {"normal": lambda: None, "E1": lambda: E1("some text"), "empty": lambda: E1(""), "noargs": lambda: Base(), "value": lambda: ValueError(),
        "base": lambda: Base("of all"), "weird": lambda: Weird("x"), "exits": lambda: Exits("x"), "nottext": lambda: NotText(1),
        "quiet": lambda: Quiet("hidden"), "surrogate": lambda: ValueError("a\ud800b"), "latin": lambda: ValueError("caf\xe9"),
        "lines": lambda: ValueError("two\nlines"), "key": lambda: KeyError("k"), "tuple": lambda: AssertionError(("a", 1)),
        "renamed": lambda: Renamed("x"), "uncaught": lambda: uncaught(), "percent": lambda: ValueError("%s %d {0}"),
        "oserror": lambda: OSError(2, "No such", "file"), "import": lambda: ImportError("no module"), "genexit": lambda: GeneratorExit("g"),
        "exit0": lambda: SystemExit(0), "exit3": lambda: SystemExit(3), "exitnone": lambda: SystemExit(None), "exittext": lambda: SystemExit("bye"),
        "interrupt": lambda: KeyboardInterrupt(), "recursion": lambda: RecursionError("too deep"), "nul": lambda: ValueError("a\0b")}
SHAPES = {
    "top": "end()\n",
    "function": "def f(x):\n    end()\n    return x\nf(1)\n",
    "nested": "def f(x):\n    def g():\n        return end()\n    return g()\ndef h():\n    f(1)\nh()\n",
    "generator": "def g():\n    yield 1\n    end()\nfor x in g():\n    y = x\n",
    "finally": "try:\n    end()\nfinally:\n    R.append(1)\n",
    "handler": "try:\n    raise E3(1)\nexcept E3:\n    end()\n",
    "other-handler": "try:\n    end()\nexcept E3:\n    R.append(1)\n",
    "class": "class A(object):\n    end()\n",
    "method": "class A(object):\n    def m(self):\n        end()\nA().m()\n",
    "init": "class A(object):\n    def __init__(self):\n        end()\nA()\n",
    "comprehension": "[end() for x in (1, 2)]\n",
    "native": "list(map(lambda x: end(), (1,)))\n",
    "with": "with cm(1):\n    end()\n",
    "loop": "for x in (1, 2, 3):\n    try:\n        if x == 2:\n            end()\n    finally:\n        R.append(x)\n",
    "call-error": "def f(x):\n    return x\nend()\nf()\n",
    "name-error": "def f():\n    return undefined_name\nend()\nf()\n",
    "zero": "end()\n1 % 0\n",
    "returning": "def f():\n    try:\n        return end()\n    finally:\n        R.append(2)\nf()\n",
    "caught": "try:\n    end()\nexcept Exception:\n    R.append(3)\n",
}


def uncaught():
    from xpython.vm import PyVMUncaughtException
    return PyVMUncaughtException("not by the interpreter")


def ender(env, which):
    def end():
        env.ctx.event("end")
        e = ENDS[which]()
        if e is not None:
            raise e
    return end


def report(e):
    """-> (type's name, text) of what is to be reported"""
    try:
        text = str(e)
    except BaseException:
        text = "<exception str() failed>"
    return type(e).__name__, text


def reported(out, name, text, encoding):
    line = "%s: %s" % (name, text) if text else name
    try:
        line.encode(encoding)
    except UnicodeError:
        line = line.encode("ascii", "backslashreplace").decode("ascii")
    return out.endswith("\n" + line + "\n") or out == line + "\n"


class Capture:
    """Both standard streams, with a given encoding."""

    def __init__(self, encoding):
        self.buf = io.BytesIO()
        self.text = io.TextIOWrapper(self.buf, encoding=encoding, errors="strict", write_through=True)

    def __enter__(self):
        self.saved = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = self.text
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.saved

    def value(self):
        return self.buf.getvalue().decode(self.text.encoding)


def run_host(ctx, src, which):
    def thunk():
        env = Env(ctx)
        ns = env.ns()
        ns.update(R=[], end=ender(env, which))
        try:
            exec(compiled(None, src), ns)
        except BaseException as e:
            if is_engine(e):
                raise
            return ("raised", e, ns["R"])
        return ("normal", None, ns["R"])
    return ctx.run(thunk)


def is_engine(e):
    return type(e).__module__.startswith("symx.engine") and not isinstance(e, SymRaise)


def run_vm(ctx, v, vm, code, which, encoding, through=None):
    def thunk():
        env = Env(ctx)
        ns = env.ns()
        ns.update(R=[], end=ender(env, which))
        with Capture(encoding) as cap:
            try:
                rc = vm.run_code(code, ns, ns) if through is None else through(code, ns)
                r = ("rc", rc)
            except BaseException as e:
                if is_engine(e):
                    raise
                r = ("raised", e)
        return r + (ns["R"], cap.value())
    return ctx.run(thunk)


def judge(ctx, v, got, want, encoding, what):
    if want.kind != "ret" or got.kind != "ret":
        ctx.ok(want.kind == got.kind, what, "%s instead of %s" % (got, want))
        return
    how, exc, log = want.value
    r, val, glog, out = got.value
    ctx.ok(got.events == want.events and glog == log, what + ": the program's own steps", lambda: "%s %s, expected %s %s" % (got.events, glog, want.events, log))
    if how == "normal":
        ctx.ok((r, val) == ("rc", 0), what + ": success", lambda: "finished normally, but the run gave %s %r" % (r, val))
        ctx.ok(out == "", what + ": silent success", lambda: "printed %r" % out)
    elif isinstance(exc, (SystemExit, KeyboardInterrupt)):
        ctx.ok(r == "raised" and type(val) is type(exc) and val.args == exc.args, what + ": request to exit",
               lambda: "%r gave %s %r" % (exc, r, val))
    else:
        ctx.ok(r == "rc" and val == 1, what + ": failure", lambda: "ended with %r, but the run gave %s %r" % (type(exc), r, val))
        name, text = report(exc)
        if type(exc).__name__ not in ENDS_OWN and (type(exc), text) not in EXACT:
            text = None                 # raised by the interpreter itself: the wording may differ
        if text is None:
            last = out.rstrip("\n").rsplit("\n", 1)[-1]
            ok = last.startswith(name + ": ") and len(last) > len(name) + 2
        else:
            ok = reported(out, name, text, encoding)
        ctx.ok(ok, what + ": report", lambda: "%s %r was reported as %r" % (name, text, out))


EXACT = set()
ENDS_OWN = set()
for _f in ENDS:
    if _f not in ("normal", "uncaught"):
        _e = ENDS[_f]()
        ENDS_OWN.add(type(_e).__name__) if type(_e).__name__ not in ("NameError", "TypeError", "ZeroDivisionError") else None
ENDS_OWN.add("PyVMUncaughtException")




def case(v, name, cls=None, tag=""):
    src = SHAPES[name]

    def fn(ctx):
        which = ctx.choose("ending", list(ENDS))
        encoding = ctx.choose("encoding", ["utf-8", "ascii"])
        want = run_host(ctx, src, which)
        vm = v.vm(cls)
        got = run_vm(ctx, v, vm, compiled(v, src), which, encoding)
        judge(ctx, v, got, want, encoding, "run")
    return H("%s/end-%s%s" % (v, name, tag), fn, str(v), max_paths=4000)


def twice(v, first, second):
    s1, s2 = SHAPES[first], SHAPES[second]

    def fn(ctx):
        w1 = ctx.choose("first ending", ["normal", "E1", "weird", "exit3", "surrogate", "base", "interrupt"])
        w2 = ctx.choose("second ending", ["normal", "value", "noargs", "exit0"])
        vm = v.vm()
        run_vm(ctx, v, vm, compiled(v, s1), w1, "utf-8")
        ctx.ok(not vm.frames and vm.frame is None, "no frame is left", lambda: repr(vm.frames))
        ctx.ok(tuple(vm.exc_info) == (None, None, None), "no exception is being handled", lambda: repr(vm.exc_info))
        got = run_vm(ctx, v, vm, compiled(v, s2), w2, "utf-8")
        alone = run_vm(ctx, v, v.vm(), compiled(v, s2), w2, "utf-8")
        judge(ctx, v, got, run_host(ctx, s2, w2), "utf-8", "second run")
        if got.kind == alone.kind == "ret":
            ctx.ok(got.value[3] == alone.value[3], "same report as alone", lambda: "%r, alone %r" % (got.value[3], alone.value[3]))
    return H("%s/twice-%s-%s" % (v, first, second), fn, str(v), max_paths=4000)


def through_exec(v, name, traced):
    """exec_code_object(), which makes the interpreter itself."""
    src = SHAPES[name]

    def fn(ctx):
        import types
        from xpython import execfile
        which = ctx.choose("ending", list(ENDS))
        want = run_host(ctx, src, which)

        def callback(*a):
            return callback

        def through(code, ns):
            saved, execfile.BUILTINS = execfile.BUILTINS, types.ModuleType("builtins")
            vars(execfile.BUILTINS).update(vars(saved))
            try:
                return execfile.exec_code_object(code, ns, v.vmtup, v.impl, callback if traced else None)
            finally:
                execfile.BUILTINS = saved
        got = run_vm(ctx, v, None, compiled(v, src), which, "utf-8", through)
        judge(ctx, v, got, want, "utf-8", "exec_code_object")
    return H("%s/exec-%s%s" % (v, name, "-traced" if traced else ""), fn, str(v), max_paths=4000)


def harnesses():
    hs = []
    for v in ALL:
        for name in SHAPES:
            if not supported(v, SHAPES[name]):
                continue
            hs.append(case(v, name))
            if v in (CPY[3], CPY[10], CPY[15], PYPY[0], CPY[13]):
                hs += [through_exec(v, name, t) for t in (False, True)]
        for a in ("function", "finally", "handler", "generator", "with", "comprehension"):
            for b in ("top", "handler", "nested"):
                if supported(v, SHAPES[a]) and supported(v, SHAPES[b]):
                    hs.append(twice(v, a, b))
    return hs


BOUNDS = BOUNDS % (len(SHAPES), len(ENDS))
