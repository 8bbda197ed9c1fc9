"""C21 import statements request and bind exactly what was written."""
import sys
import types

from symx.lib import *  # noqa
from symx.anyvalue import any_checks

PROP = "C21"
ASSUMPTIONS = ["the import machinery behind __import__ is the host's; it is a stub here whose outcome is symbolic",
               "Python 2's default level -1 reaches the host's __import__ as 0, which has no -1 any more"]
BOUNDS = ("every import form (plain, dotted, aliased, several names, from, relative, star) in a module, class body or "
          "function; __import__ gives a module, an ImportError or another exception; each attribute of the module is present, "
          "missing or raises; star imports of modules with 7 kinds of __all__ and of namespaces; per version")


class Mod:
    """What __import__ gives: each wanted attribute is there, missing, or raises."""

    def __init__(self, env, name, attrs=("x", "y", "b", "c")):
        self.__dict__["_m"] = (env, name, attrs)
        self.__dict__["__name__"] = name

    def __repr__(self):
        return "<Mod %s>" % self._m[1]

    def __eq__(self, o):
        return isinstance(o, Mod) and o._m[1] == self._m[1]

    __hash__ = object.__hash__

    def __getattr__(self, name):
        env, mod, attrs = self.__dict__["_m"]
        if name not in attrs:
            raise AttributeError(name)
        env.ctx.event("getattr", mod, name)
        how = env.ctx.choose(env.ctx._occname("%s.%s" % (mod, name)), ["value", "missing", "raise"])
        if how == "missing":
            raise AttributeError(name)
        if how == "raise":
            raise E1("%s.%s" % (mod, name))
        return Mod(env, "%s.%s" % (mod, name), ("c",) if name == "b" else ())


def importer(env, ns, mk=Mod):
    def __import__(name, globals=None, locals=None, fromlist=(), level=0):
        env.ctx.event("import", name, globals is ns[0], tuple(fromlist or ()), max(level, 0))
        how = env.ctx.choose(env.ctx._occname("import %s" % name), ["module", "ImportError", "raise"])
        if how == "ImportError":
            raise ImportError(name)
        if how == "raise":
            raise E1("import")
        return mk(env, name if fromlist else name.split(".")[0])
    return __import__


FORMS = {
    "import": "import a",
    "import-dotted": "import a.b",
    "import-dotted-as": ("import a.b.c as z", (3, 7)),
    "import-as": "import a as z",
    "import-several": "import a as z, b, a.c",
    "from": "from a import x",
    "from-several": "from a import x, y as z, x as w",
    "from-dotted": "from a.b import x as z",
    "from-dot": ("from . import x", (2, 5)),
    "from-dot-name": ("from .a import x, y", (2, 5)),
    "from-dots": ("from ..a.b import x", (2, 5)),
    "from-three-dots": ("from ... import x as z", (2, 5)),
}
PLACES = {
    "module": "%s\n",
    "function": "def f():\n    %s\n    return sorted(locals().items(), key=str)\nR = f()\n",
    "global": "def f():\n    global a, b, x, y, z, w\n    %s\n    return sorted(locals())\nR = f()\n",
    "class": "class C(object):\n    x = 0\n    %s\nR = [(k, getattr(C, k, 0)) for k in ('a', 'b', 'w', 'x', 'y', 'z')]\n",
    "handled": "try:\n    %s\nexcept ImportError: R = 'ImportError'\nexcept E1: R = 'E1'\nelse: R = 'imported'\n",
    "in-handler": "try:\n    ev('b')\nexcept E1:\n    try:\n        %s\n    except ImportError: R = 'ImportError'\n    z = 5\n",
}
NAMES = ("R", "a", "b", "w", "x", "y", "z", "sys", "s")


def form(v, place, name, stmt):
    src = PLACES[place] % stmt
    if not supported(v, src):
        return []

    def fn(ctx):
        def go(on):
            def thunk():
                env = Env(ctx, {"ev": (E1,)})
                ns = env.ns()
                ns["__builtins__"]["__import__"] = importer(env, [ns])
                try:
                    if on is None:
                        exec(compiled(None, src), ns)
                    else:
                        execute(v.vm(), compiled(v, src), ns, ns)
                except Exception as e:
                    return (type(e).__name__, e.args if isinstance(e, E1) else ()) + tuple(ns.get(n, "<unbound>") for n in NAMES)
                return tuple(ns.get(n, "<unbound>") for n in NAMES)
            return ctx.run(thunk)
        ctx.same(go(v), go(None), "import")
    return [H("%s/%s-%s" % (v, place, name), fn, str(v), max_paths=6000)]


# ------------------------------------------------------------ star imports
class Slotted(object):
    __slots__ = ()


class Lazy(object):
    """__all__ but no namespace of its own"""
    __slots__ = ("env", "__all__")
    __name__ = "a"

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        self.env.ctx.event("getattr", name)
        if self.env.ctx.choose("lazy %s" % name, ["value", "missing"]) == "missing":
            raise AttributeError(name)
        return "lazy " + name


ALLS = {"absent": None, "empty": (), "list": ["x", "_p"], "repeated": ["x", "x"], "missing": ["x", "nowhere", "y"],
        "not-str": ["y", 5, "x"], "subset": ("y", "__dunder__")}


def star_mod(env, name):
    kind = env.ctx.choose("kind", ["module", "object", "slots", "lazy"])
    if kind == "slots":
        return Slotted()
    if kind == "lazy":
        m = Lazy()
        m.env = env
    else:
        m = types.ModuleType(name) if kind == "module" else AttrNS()
        for k in ("x", "_p", "y", "__dunder__"):
            if env.ctx.bool("has " + k):
                m.__dict__[k] = "%s of module" % k
        m.__dict__["z"] = "z of module"
    al = env.ctx.choose("__all__", list(ALLS))
    if ALLS[al] is not None:
        m.__all__ = ALLS[al]
    return m


class AttrNS(object):
    __name__ = "a"
    inherited = "a class attribute is not in the namespace"


def star(v, separate):
    src = "x = 'old'\n_p = 'old p'\nfrom %sa import *\nR = 'done'\n"
    src = src % ""

    def fn(ctx):
        def go(on):
            def thunk():
                env = Env(ctx)
                ns = env.ns()
                ns["__builtins__"]["__import__"] = importer(env, [ns], star_mod)
                l = {} if separate else ns
                try:
                    if on is None:
                        exec(compiled(None, src), ns, l)
                    else:
                        execute(v.vm(), compiled(v, src), ns, l)
                    e = None
                except Exception as exc:
                    e = type(exc).__name__
                base = Env(ctx).ns()
                return (e, sorted(((str(k), str(x)) for k, x in l.items() if k not in base or k == "__dunder__")),
                        sorted(set(ns) - set(base)) if separate else None)
            return ctx.run(thunk)
        got, want = go(v), go(None)
        # the order of the names in a namespace is not part of the property; a type error may come at another name
        ctx.same(got, want, "star")
    return H("%s/star%s" % (v, "-locals" if separate else ""), fn, str(v), max_paths=3000)


# ------------------------------------------------------------ sys
SYS = {
    "import-sys-as": "import sys as s\nR = s.version_info[:2] == V\n",
    "own-sys": "sys = 'mine'\nimport sys as s\nR = (s.version_info[:2] == V, sys)\n",
    "sys-in-function": "def f():\n    import sys\n    return sys.version_info[:2] == V\nR = f()\n",
    "from-sys": "from sys import version_info as s0\nR = s0[:2] == V\n",
    "the-same-sys": "import sys\ndef f():\n    import sys as s\n    return s\nR = sys is f()\ndel sys\n",
    "sys-attribute": "import sys\nsys.flag = 'set'\ndef f():\n    import sys as s\n    return s.flag\nR = f()\ndel sys\n",
}


def sysmod(v, name, src):
    def fn(ctx):
        def go(on):
            def thunk():
                env = Env(ctx)
                ns = env.ns()
                ns["V"] = sys.version_info[:2] if on is None else v.tup
                saved = dict(vars(sys))
                try:
                    if on is None:
                        exec(compiled(None, src), ns)
                    else:
                        execute(v.vm(), compiled(v, src), ns, ns)
                finally:
                    vars(sys).pop("flag", None)
                    touched = sorted(k for k in vars(sys) if k != "flag" and vars(sys)[k] is not saved.get(k))
                return ns.get("R"), "sys" in ns and repr(ns["sys"]), touched
            return ctx.run(thunk)
        ctx.same(go(v), go(None), "sys")
    return H("%s/%s" % (v, name), fn, str(v))


def harnesses():
    hs = []
    for v in ALL:
        for name, f in FORMS.items():
            f, lo = f if isinstance(f, tuple) else (f, None)
            if lo and v < lo:
                continue
            for place in PLACES:
                hs += form(v, place, name, f)
        hs += [star(v, False), star(v, True)]
        for name, src in SYS.items():
            if supported(v, src):
                hs.append(sysmod(v, name, src))
    hs += any_checks(PROP, ALL)
    return hs
