"""C19 running a file, module or string restores the host's argv, path and main module."""
import atexit
import os
import shutil
import sys
import tempfile
import types

from checks.c18 import Base, Capture, is_engine
from symx.lib import *  # noqa

PROP = "C19"
ASSUMPTIONS = ["reading a .pyc file (xdis.load_module) is a stand-in that gives the compiled program, another version, or an error",
               "the interpreter's changes to the host's builtins for .pyc files of other versions go to a copy"]
BOUNDS = ("programs run from a source file, a .pyc file of 10 versions, a string and a module (top-level, in a package, a package); 9 "
          "things a program does to argv, the import path and the main module, 7 endings, at module level and in a function; 12 failures "
          "to start; with and without a trace callback that raises at a symbolic event; hosts with several and with no path entries")

DIR = []


def scratch():
    if not DIR or DIR[0] != os.getpid():
        DIR[:] = [os.getpid(), tempfile.mkdtemp(prefix="symx_c19_")]
        path, pid = DIR[1], DIR[0]
        from multiprocessing import util
        def clean():
            if os.getpid() == pid:
                shutil.rmtree(path, ignore_errors=True)
        util.Finalize(None, clean, exitpriority=1)
        atexit.register(clean)
        populate(path)
    return DIR[1]


PROG = """import sys
import symx_hook
symx_hook.see(sys.argv, sys.path, __name__, globals())
symx_hook.act()
symx_hook.end()
def f():
    symx_hook.act()
    return symx_hook.end()
f()
symx_hook.act()
"""


def populate(d):
    def put(rel, text):
        p = os.path.join(d, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)
    put("prog.py", PROG)
    put("nonl.py", PROG.rstrip("\n"))
    put("script", PROG)
    put("prog.pyc", "")
    put("empty.py", "")
    put("bad.py", "def f(:\n")
    put("symx_c19_top.py", PROG)
    put("symx_c19_pkg/__init__.py", "")
    put("symx_c19_pkg/__main__.py", PROG)
    put("symx_c19_pkg/mod.py", PROG)
    put("symx_c19_nomain/__init__.py", "")
    put("symx_c19_broken/__init__.py", "import symx_no_such_module\n")
    put("symx_c19_broken/mod.py", PROG)


ENDS = {"normal": None, "E1": lambda: E1("x"), "exit0": lambda: SystemExit(0), "exit3": lambda: SystemExit(3), "exit": lambda: SystemExit("bye"),
        "interrupt": lambda: KeyboardInterrupt(), "base": lambda: Base("b")}


def actions():
    def rebind_argv():
        sys.argv = ["other"]

    def rebind_path():
        sys.path = list(sys.path[1:])

    def no_main():
        sys.modules.pop("__main__", None)

    def other_main():
        sys.modules["__main__"] = types.ModuleType("other")
    return {"nothing": lambda: None, "argv-append": lambda: sys.argv.append("more"), "argv-clear": lambda: sys.argv.__delitem__(slice(None)),
            "argv-rebind": rebind_argv, "path-insert": lambda: sys.path.insert(0, "/symx-first"), "path-append": lambda: sys.path.append("/symx-last"),
            "path-clear": lambda: sys.path.__delitem__(slice(None)), "path-rebind": rebind_path, "no-main": no_main, "other-main": other_main}


class Acts:
    """What the program calls: it tells what it sees, does something to its surroundings and ends."""
    n = 0

    def __init__(self, ctx):
        self.ctx, self.seen, self.ended, self.acts = ctx, None, None, actions()

    def see(self, argv, path, name, glo):
        self.seen = (argv is sys.argv, list(argv), list(path), name, getattr(sys.modules.get("__main__"), "__dict__", None) is glo)

    def act(self):
        self.n += 1
        names = list(self.acts) if self.n == 1 else ["nothing", "path-insert"]
        self.acts[self.ctx.choose("action%d" % self.n, names)]()

    def end(self):
        which = self.ctx.choose("ending%d" % self.n, list(ENDS))
        if ENDS[which] is not None:
            self.ended = ENDS[which]()
            raise self.ended


class Stop(Exception):
    pass


def hosted(ctx, thunk, hook):
    """Run thunk as a host would, with its own argv, path and main module; check those afterwards."""
    argv, path, main = ["host", "-x"], [], types.ModuleType("__main__")
    if ctx.choose("host path", ["several", "none"]) == "several":
        path += ["/host-first", "/host-second", scratch()] + sys.path
    kept_argv, kept_path = list(argv), list(path)
    saved = sys.argv, sys.path, sys.modules["__main__"], sys.modules.get("symx_hook")
    saved_items = list(saved[1])
    sys.argv, sys.path, sys.modules["__main__"] = argv, path, main
    sys.modules["symx_hook"] = types.ModuleType("symx_hook")
    for k in ("see", "act", "end"):
        setattr(sys.modules["symx_hook"], k, getattr(hook, k))
    before = set(sys.modules)
    res = None
    try:
        with Capture("utf-8") as cap:
            try:
                res = ("returned", thunk())
            except BaseException as e:
                if is_engine(e):
                    raise
                res = ("raised", e)
        now = sys.argv, sys.path, sys.modules.get("__main__")
        lists = list(sys.argv), list(sys.path)
    finally:
        sys.argv, sys.path, sys.modules["__main__"] = saved[:3]
        saved[1][:] = saved_items
        for m in set(sys.modules) - before:
            if m.startswith("symx_c19"):
                del sys.modules[m]
        del sys.modules["symx_hook"]
    ctx.ok(now[0] is argv and lists[0] == kept_argv, "argv restored", lambda: "argv is %r instead of %r" % (lists[0], kept_argv))
    ctx.ok(now[1] is path and lists[1] == kept_path, "path restored",
           lambda: "path is %r instead of %r" % (lists[1][:4], kept_path[:4]))
    ctx.ok(now[2] is main, "main module restored", lambda: "main module is %r" % (now[2],))
    return res, cap.value(), kept_path


def judge(ctx, res, hook, argv, path0, host_path):
    how, val = res
    if hook.seen is not None:
        same, a, p, name, own = hook.seen
        ctx.ok(same and a == argv, "the program's argv", lambda: "saw %r instead of %r" % (a, argv))
        ctx.ok(p == ([path0] if path0 is not None else host_path[:1]) + host_path[1:], "the program's path", lambda: "saw %r" % (p[:4],))
        ctx.ok(name == "__main__" and own, "the program's main module", lambda: "name %r, own module %r" % (name, own))
    else:
        ctx.ok(False, "the program ran", lambda: "%s %r" % (how, val))
    if hook.ended is None:
        ok = how == "raised" and isinstance(val, SystemExit) and val.code in (0, None)
    elif isinstance(hook.ended, (SystemExit, KeyboardInterrupt)):
        ok = how == "raised" and type(val) is type(hook.ended) and val.args == hook.ended.args
    else:
        ok = how == "raised" and isinstance(val, SystemExit) and val.code == 1
    ctx.ok(ok, "status", lambda: "the program ended with %r, running it %s %r" % (hook.ended, how, val))


def loader(v, what="program"):
    def load_module(filename, *a, **kw):
        if what == "importerror":
            raise ImportError("bad magic")
        if what == "valueerror":
            raise ValueError("truncated")
        version = (1, 5) if what == "version" else v.tup
        return version, 0, 0, compiled(v, PROG, filename), v.impl, 0, 0, {}
    return load_module


class patched:
    """execfile with its stand-ins."""

    def __init__(self, load=None):
        self.load = load

    def __enter__(self):
        from xpython import execfile
        self.mod = execfile
        self.saved = execfile.BUILTINS, execfile.load_module
        execfile.BUILTINS = types.ModuleType("builtins")
        vars(execfile.BUILTINS).update(vars(self.saved[0]))
        if self.load:
            execfile.load_module = self.load
        return execfile

    def __exit__(self, *a):
        self.mod.BUILTINS, self.mod.load_module = self.saved


def tracer(ctx, when):
    """A trace callback that raises at the event number `when`, if any."""
    n = [0]

    def callback(*a):
        n[0] += 1
        if n[0] == when:
            raise Stop("callback")
        return callback
    return callback


ARGS = {"none": (), "two": ("a", "b"), "list": ["--x"]}


def file_case(v, name, traced):
    def fn(ctx):
        hook = Acts(ctx)
        args = ARGS[ctx.choose("args", ["none", "two", "list"] if v is HOST and not traced else ["two"])]
        f = os.path.join(scratch(), name)
        with patched(loader(v) if name.endswith(".pyc") else None) as ex:
            res, out, host = hosted(ctx, lambda: ex.run_python_file(f, args, callback=tracer(ctx, 0) if traced else None), hook)
        judge(ctx, res, hook, [f] + list(args), scratch(), host)
    return H("%s/file-%s%s" % (v, name, "-traced" if traced else ""), fn, str(v), max_paths=30000)


def string_case(v, traced):
    def fn(ctx):
        hook = Acts(ctx)
        args = ARGS[ctx.choose("args", ["none", "two", "list"])]
        src = PROG[:-1] if ctx.choose("last line", ["ended", "open"]) == "open" else PROG
        with patched() as ex:
            res, out, host = hosted(ctx, lambda: ex.run_python_string(src, args, callback=tracer(ctx, 0) if traced else None), hook)
        judge(ctx, res, hook, ["<string %s>" % src[:20]] + list(args), None, host)
    return H("%s/string%s" % (v, "-traced" if traced else ""), fn, str(v), max_paths=30000)


def module_case(v, mod, rel, package):
    def fn(ctx):
        hook = Acts(ctx)
        args = ARGS[ctx.choose("args", ["none", "two", "list"])]
        if ctx.choose("host path", ["several", "none"]) == "none":
            return
        f = os.path.join(scratch(), rel)
        with patched() as ex:
            res, out, host = hosted(ctx, lambda: ex.run_python_module(mod, args), hook)
        judge(ctx, res, hook, [f] + list(args), "" if package else os.path.dirname(f), host)
    return H("%s/module-%s" % (v, mod), fn, str(v), max_paths=30000)


def no_start(v, name, start, expect):
    """The program does not even start."""
    def fn(ctx):
        hook = Acts(ctx)
        with patched(loader(v, name) if name in ("version", "importerror", "valueerror") else None) as ex:
            res, out, host = hosted(ctx, lambda: start(ex), hook)
        ctx.ok(hook.seen is None and res[0] == "raised" and type(res[1]).__name__ in expect.split(), "refused",
               lambda: "%s %r" % res)
    return H("%s/nostart-%s" % (v, name), fn, str(v))


def stopped(v, how):
    """The trace callback raises at some event."""
    def fn(ctx):
        hook = Acts(ctx)
        when = ctx.choose("event", range(1, 60))

        def start():
            with patched() as ex:
                cb = tracer(ctx, when)
                if how == "file":
                    ex.run_python_file(os.path.join(scratch(), "prog.py"), (), callback=cb)
                else:
                    ex.run_python_string(PROG, (), callback=cb)
        hook.acts = {k: hook.acts[k] for k in ("nothing", "path-insert")}
        hook.end = lambda: None
        res, out, host = hosted(ctx, start, hook)
        ctx.ok(res[0] == "raised" and (isinstance(res[1], (Stop, SystemExit))), "ended", lambda: "%s %r" % res)
    return H("%s/stopped-%s" % (v, how), fn, str(v), max_paths=30000)


HOST = CPY[-1]


def harnesses():
    hs = []
    for name in ("prog.py", "nonl.py", "script"):
        hs += [file_case(HOST, name, t) for t in (False, True)]
    for v in ALL:
        if supported(v, PROG):
            hs.append(file_case(v, "prog.pyc", False))
    hs += [string_case(HOST, t) for t in (False, True)]
    hs += [module_case(HOST, *a) for a in [("symx_c19_top", "symx_c19_top.py", False), ("symx_c19_pkg", "symx_c19_pkg/__main__.py", True),
                                           ("symx_c19_pkg.mod", "symx_c19_pkg/mod.py", True)]]
    f = lambda n: os.path.join(scratch(), n)
    for name, start, expect in [
            ("missing", lambda ex: ex.run_python_file(f("nosuch.py"), ()), "NoSourceError"),
            ("directory", lambda ex: ex.run_python_file(scratch(), ()), "NoSourceError"),
            ("syntax", lambda ex: ex.run_python_file(f("bad.py"), ()), "SyntaxError"),
            ("string-syntax", lambda ex: ex.run_python_string("def f(:", ()), "SyntaxError"),
            ("args", lambda ex: ex.run_python_file(f("prog.py"), 5), "TypeError"),
            ("string-args", lambda ex: ex.run_python_string(PROG, 5), "TypeError"),
            ("version", lambda ex: ex.run_python_file(f("prog.pyc"), ()), "WrongBytecodeError"),
            ("importerror", lambda ex: ex.run_python_file(f("prog.pyc"), ()), "NoSourceError"),
            ("valueerror", lambda ex: ex.run_python_file(f("prog.pyc"), ()), "ValueError"),
            ("module", lambda ex: ex.run_python_module("symx_c19_nosuch", ()), "NoSourceError"),
            ("submodule", lambda ex: ex.run_python_module("symx_c19_pkg.nosuch", ()), "NoSourceError"),
            ("nomain", lambda ex: ex.run_python_module("symx_c19_nomain", ()), "NoSourceError"),
            ("builtin-module", lambda ex: ex.run_python_module("sys", ()), "NoSourceError"),
            ("broken-package", lambda ex: ex.run_python_module("symx_c19_broken.mod", ()), "NoSourceError")]:
        hs.append(no_start(HOST, name, start, expect))
    hs += [stopped(HOST, how) for how in ("file", "string")]
    return hs
