"""C26 eval, exec, locals, globals, vars, dir, compile and execfile use the program's namespaces."""
from symx.lib import *  # noqa

PROP = "C26"

# What is run, and how: {0} is the indentation.
HEAD = """
def names(d):
    return sorted([k for k in d if k[0] not in '._' and k not in SKIP])
SKIP = set(globals()) | {'e', 'd', 'err', 'SKIP', 'names', 'R', 'look', 'scope', 'CODES', 'GG'}
x = 'global x'
y = 'global y'
R = []
G = {'x': 'G x', 'y': 'G y'}
L = {'x': 'L x'}
"""
EVAL = """
S = ['x', 'y', 'x + y', 'a', '(lambda: x)()', '(lambda k=x: k + y)()', '[x for k in (1, 2)]', 'names(locals())', 'globals() is GG', ' \\tx', b'x',
     'nothing', 'x +', 5, None, ev][n('src', 0, 15)]
k = n('form', 0, 10)
try:
    if k == 0: r = eval(S)
    elif k == 1: r = eval(S, G)
    elif k == 2: r = eval(S, None)
    elif k == 3: r = eval(S, G, L)
    elif k == 4: r = eval(S, None, L)
    elif k == 5: r = eval(S, G, None)
    elif k == 6: r = eval(S, {}, {})
    elif k == 7: r = eval(S, L, G)
    elif k == 8: r = eval(S, 5)
    elif k == 9: r = eval(S, None, 5)
    else: r = eval(S, *(G, L))
except (NameError, TypeError, SyntaxError) as e:
    r = type(e).__name__
R.append(r)
R.append('__builtins__' in G)
"""
EXEC = """
S = ['x = 1; z = 2', 'def f():\\n    return x\\nz = f()', 'del x', 'global x, z\\nx = z = 5', 'class K(object):\\n    z = x\\nz = K.z', 'z = ev(1)', 'import sys as z',
     'for z in (1, 2): pass', 'q = names(locals())', b'z = x', 'z =', 5, None][n('src', 0, 12)]
k = n('form', 0, 10)
try:
    if k == 0: exec(S)
    elif k == 1: exec(S, G)
    elif k == 2: exec(S, None)
    elif k == 3: exec(S, G, L)
    elif k == 4: exec(S, None, L)
    elif k == 5: exec(S, G, None)
    elif k == 6: exec(S, {}, {})
    elif k == 7: exec(S, L, G)
    elif k == 8: exec(S, 5)
    elif k == 9: exec(S, None, 5)
    else: exec(S, *(G, L))
except (NameError, TypeError, SyntaxError, E1) as e:
    R.append(type(e).__name__)
R.append([names(locals()), sorted(k for k in G if k[0] != '_'), sorted(k for k in L if k[0] != '_'), '__builtins__' in G, '__builtins__' in L])
R.append([str(d.get('x', 'none')) + str(d.get('z', 'none'))[:9] for d in (GG, G, L)])
"""
LOCALS = """
l1 = locals()
R.append(names(l1))
b = ev('b')
l2 = locals()
R.append([l1 is l2, names(l1), names(vars()), names(dir()), names(locals().keys())])
if c('del'):
    del b
R.append([names(l2), names(locals()), names(l1), 'b' in vars()])
l1['new'] = 7
l1['b'] = 8
R.append([names(locals()), locals().get('b', 'none'), locals()['new']])
R.append([globals() is GG, len(dir(GG)) > 3, vars(type(0)) is not None])
"""
SCOPES = {
    "module": "GG = globals()\na = 'local a'\n{0}",
    "function": "GG = globals()\ndef scope(a, x='param x'):\n    v = 1\n    {4}\n    return 0\nscope('local a')\n",
    "globals-declared": "GG = globals()\ndef scope(a):\n    global x\n    {4}\nscope('local a')\n",
    "closure": "GG = globals()\ndef outer(a, x):\n    late = 1\n    def scope(p=1):\n        a, late\n        w = 2\n        {8}\n    scope()\n    a = 'new a'\n    scope()\nouter('local a', 'outer x')\n",
    "cells": "GG = globals()\ndef scope(a, x='param x'):\n    u = 3\n    h = lambda: (a, x, u, w)\n    {4}\n    w = 5\n    a = x = 'changed'\n    R.append([names(locals()), locals()['a'], locals()['w'], h() == (a, x, u, w)])\nscope('local a')\n",
    "class": "GG = globals()\nclass scope(object):\n    a = 'local a'\n    x = 'class x'\n    {4}\nR.append(names(scope.__dict__))\n",
    "class-in-function": "GG = globals()\ndef outer(a, x):\n    class scope(object):\n        v = a\n        {8}\n    return names(scope.__dict__)\nR.append(outer('local a', 'param x'))\n",
    "method": "GG = globals()\nclass K(object):\n    x = 'class x'\n    def scope(self, *a, **kw):\n        {8}\nK().scope(1, 2, k=3)\n",
    "generator": "GG = globals()\ndef scope(a):\n    {4}\n    yield 1\n    w = 'w'\n    yield names(locals())\n    R.append([names(locals()), eval('w')])\nR.append(list(scope('local a')))\n",
    "try": "GG = globals()\ndef scope(a):\n    try:\n        1 // 0\n    except ZeroDivisionError as err:\n        R.append(names(locals()))\n        {8}\n    R.append(names(locals()))\nscope('local a')\n",
    "loop": "GG = globals()\ndef scope(a):\n    for i in (1, 2):\n        {8}\n        x = 'loop x'\nscope('local a')\n",
}


def indented(text, template):
    for k in (0, 4, 8):
        template = template.replace("{%d}" % k, text.strip().replace("\n", "\n" + " " * k))
    return HEAD + template


MORE = {
    "argument-errors": "R = []\ndef f(a):\n    k = n(1, 0, 13)\n    try:\n        if k == 0: r = globals(1)\n        elif k == 1: r = locals(1)\n        elif k == 2: r = eval()\n        elif k == 3: r = eval('1', {}, {}, {})\n        elif k == 4: r = dir(1, 2)\n        elif k == 5: r = vars(5)\n        elif k == 6: r = vars(1, 2)\n"
                       "        elif k == 7: r = eval(*())\n        elif k == 8: r = compile('1')\n        elif k == 9: r = compile('1', 'f', 'zz')\n        elif k == 10: r = len(dir(a)) > 3\n        elif k == 11: r = eval(expression='1')\n        elif k == 12: r = vars(E1)['__module__'] is not None\n        else: r = eval('locals(5)')\n"
                       "    except (TypeError, ValueError) as e:\n        r = type(e).__name__\n    R.append(r)\nf(1)\n",
    "nested-eval": "x = 1\ndef f(x):\n    y = x + 1\n    return [eval('eval(\"x + y\")'), eval('eval(\"x\", {\"x\": y})'), eval('f2(x)'), eval('locals()')['y'], eval('(lambda: x)()'), eval('[x for i in (1,)][0]', {'x': 9})]\ndef f2(z):\n    return eval('x + z')\nR = f(5)\n",
    "eval-raises": "def f():\n    a = 1\n    try:\n        return eval('ev(1) + ev(2) + a')\n    except E1:\n        return [a, eval('a')]\nR = [f(), f()]\n",
    "exec-raises": "R = []\nfor i in (1, 2):\n    try:\n        exec('ev(1)\\nx = ev(2)', globals())\n    except E1:\n        R.append('E1')\n    R.append('x' in globals())\n",
    "exec-function": "def f(p):\n    d = {}\n    exec('def g(a, b=p):\\n    return [a, b, x]\\n', {'p': p, 'x': ev(1)}, d)\n    return d['g']\nx = 'no'\nR = [f(1)(2), f(3)(4, 5)]\n",
    "exec-generator": "d = {}\nexec('def g(k):\\n    for i in range(k):\\n        yield ev(i)\\n', globals(), d)\nR = []\ntry:\n    for i in d['g'](n(1, 0, 3)):\n        R.append(i)\nexcept E1:\n    R.append('E1')\n",
    "exec-class": "d = {}\nexec('class A(object):\\n    x = ev(1)\\n    def f(self):\\n        return self.x\\n', globals(), d)\nR = [d['A']().f(), sorted(d)]\n",
    "dict-subclass": "class D(dict):\n    def __getitem__(self, k):\n        ev('get', k)\n        return dict.__getitem__(self, k)\n    def __setitem__(self, k, v):\n        ev('set', k)\n        dict.__setitem__(self, k, v)\nl = D(x=1)\nR = [eval('x + 1', {}, l)]\nexec('y = x', {}, l)\nR.append(sorted(l))\n",
    "mapping": "class M(object):\n    def __getitem__(self, k):\n        ev('get', k)\n        if c(k):\n            raise KeyError(k)\n        return k * 2\n    def __setitem__(self, k, v):\n        ev('set', k, v)\n    def __delitem__(self, k):\n        ev('del', k)\nx = 'global x'\nR = []\nfor s in ('x', 'nothing'):\n    try:\n        R.append(eval(s, globals(), M()))\n    except NameError:\n        R.append('NameError')\n"
               "try:\n    exec('y = x\\ndel y', globals(), M())\nexcept NameError:\n    R.append('NameError')\n",
    "builtins-given": "class A(object):\n    pass\nR = []\nfor s in ('len(v)', 'myb', 'v', 'None'):\n    try:\n        R.append(eval(s, {'__builtins__': {'myb': ev(1)}, 'v': [1]}))\n    except NameError:\n        R.append('NameError')\n",
    "builtins-inherited": "g = {'__builtins__': {'exec': exec, 'eval': eval, 'b': 5, 'g2': {}, 'out': [], 'E1': E1}}\ndef f():\n    return eval('eval(\"b\", g2)', g)\nR = f()\n",
    "import-in-exec": "d = {}\nexec('import os.path as p\\nfrom sys import modules as m', d)\nR = sorted(k for k in d if k[0] != '_')\n",
    "recursion": "def fact(k):\n    return 1 if k < 2 else k * eval('fact(k - 1)')\nR = [fact(n(1, 0, 5)), eval('fact(4)', {'fact': fact})]\n",
    "compile-exec": "R = []\nk = compile('x = ev(1) + a', '<c>', 'exec')\nd = {'a': 5, 'ev': ev}\ntry:\n    exec(k, d)\n    R.append(d['x'])\nexcept E1:\n    R.append('E1')\nR.append(eval(compile('a * 2', '<c>', 'eval'), {'a': 7}))\n",
    "set-locals": "def f(a):\n    locals()['a'] = 5\n    locals()['z'] = 6\n    r = [a, locals()['a'], 'z' in locals()]\n    a = 7\n    return r + [a, locals()['a'], sorted(locals())]\nR = f(1)\n",
    "set-globals": "def f():\n    globals()['zz'] = ev(1)\n    return zz\nR = [f(), 'zz' in globals()]\n",
    "locals-of-caller": "def g(z):\n    return [sorted(locals()), sorted(vars())]\ndef f(a):\n    b = 1\n    r = g(5)\n    return [r, sorted(k for k in locals()), sorted(dir())]\nR = f(1)\n",
    "recursive-locals": "def f(k):\n    before = dict(locals())\n    r = f(k - 1) if k else []\n    return [before, sorted(locals()), locals()['k']] + r\nR = f(n(1, 0, 3))\n",
    "genexpr": "def f(a):\n    x = 5\n    return [list(sorted([k for k in locals() if k[0] not in '._']) for i in (1,)), list((a, i) and sorted([k for k in locals() if k[0] not in '._']) for i in (1,))]\nR = f(1)\n",
    "lambda": "R = [(lambda a, b=2: sorted(locals()))(1), (lambda *p, **k: sorted(vars()))(1, z=2), (lambda v: eval('v'))(3), (lambda v: [dir(), v])(4)]\n",
    "string-kinds": "R = [eval(bytearray(b' 1')), eval(memoryview(b'2')), eval('\\t 3 \\n'), eval('(4\\n+1)')]\nfor s in ('', ' ', '\\n 1', '1;2', 'x = 1'):\n    try:\n        R.append(eval(s))\n    except SyntaxError:\n        R.append('SyntaxError')\n",
}
T3 = {
    "exec-value": "def f():\n    return [exec('1'), exec('x = 1', {}), exec(compile('5', '', 'single' if c(1) else 'eval'), {'__builtins__': {}}) if 0 else None]\nR = f()\n",
    "exec-errors": "R = []\ndef f(a):\n    k = n(1, 0, 4)\n    try:\n        if k == 0: r = exec()\n        elif k == 1: r = exec('1', {}, {}, {})\n        elif k == 2: r = exec('1', zz=1)\n        elif k == 3: r = exec('1', {}, 3)\n        else: r = exec(*('1', 5))\n    except TypeError as e:\n        r = type(e).__name__\n    R.append(r)\nf(1)\n",
    "nonlocal": "def f():\n    v = 1\n    def g():\n        nonlocal v\n        v = 2\n        return sorted(locals()), eval('v')\n    return [g(), v, locals()['v']]\nR = f()\n",
    "class-cell": "class A:\n    def f(self):\n        __class__\n        return [sorted(locals()), eval('__class__') is A]\nR = A().f()\n",
    "star-call": "def f(a):\n    b = 1\n    return [sorted(locals(*())), eval(*('a + b',)), eval(*('a', {'a': 5})), eval('a', *[{'a': 6}]), sorted(vars(**{}))]\nR = f(3)\n",
    "other-exec": "class K:\n    def exec(self, s):\n        return ('method', s)\n    eval = exec\ndef exec_(s):\n    return ('function', s)\nexec_.__name__ = 'exec'\nR = [K().exec(1), K().eval(2), exec_(3)]\n",
}
HOST = {
    "code-free": "def f(a):\n    k = lambda: a\n    r = []\n    for t in (eval, exec):\n        try:\n            r.append(t(k.__code__))\n        except TypeError:\n            r.append('TypeError')\n    return r\nR = f(1)\n",
    "code-closure": "def f(a):\n    def k():\n        ev(a)\n        return a\n    def o():\n        return 1\n    r = []\n    for code, cl in ((k, k), (k, o), (o, o), (o, k)):\n        try:\n            r.append(exec(code.__code__, closure=cl.__closure__))\n        except (TypeError, E1) as e:\n            r.append(type(e).__name__)\n    return r\nR = f(1)\n",
    "code-function": "x = 5\ndef f():\n    z = x\n    return ev(z)\nR = [eval(f.__code__), exec(f.__code__), eval(f.__code__, {'x': 7, 'ev': ev}), 'z' in globals()]\n",
    "future": "from __future__ import annotations\nd = {}\nexec('def f(a: nothing): pass', d)\nR = [d['f'].__annotations__]\nk = compile('def g(a: nothing2): pass', '', 'exec')\nexec(k, d)\nR.append(d['g'].__annotations__)\ntry:\n    exec(compile('def g(a: nothing3): pass', '', 'exec', 0, True), d)\nexcept NameError:\n    R.append('NameError')\n",
    "no-future": "R = []\nfor t in ('exec', 'compile'):\n    try:\n        d = {}\n        if t == 'exec':\n            exec('def f(a: nothing): pass', d)\n        else:\n            exec(compile('def f(a: nothing): pass', '', 'exec', 0, c(1)), d)\n        R.append('no error')\n    except NameError:\n        R.append('NameError')\n",
    "listcomp": "def f(a):\n    x = 5\n    return [[sorted(locals()) for i in (1,)], [eval('a + i + x') for i in (1, 2)], [[dir() for j in (1,)] for i in (1,)], sorted(locals())]\nR = f(1)\nGG = [[k for k in sorted(locals()) if k in ('i', 'R', 'GG')] for i in (1, 2)]\nclass A:\n    v = [[k for k in locals() if k[0] != '_'] for i in (1, 2)]\n    w = [k for k in locals() if k[0] != '_']\nR += [GG, A.v, A.w]\n",
    "type-params-none": "def f(a: int = 1) -> int:\n    return sorted(locals())\nR = [f(), eval('f')()]\n",
}
EXPLICIT = " 3 4 5 6 7 "


def explicit_only(text):
    """Python 2 functions with a bare exec statement are not what the host makes."""
    keep = []
    for line in text.split("\n"):
        if "k == 0: exec" in line:
            line = line.replace("exec(S)", "exec(S, G)")
        if "k == 2: exec" in line:
            line = line.replace("exec(S, None)", "exec(S, G, G)")
        line = line.replace("exec(S, *(G, L))", "exec(S, G, L)")
        keep.append(line)
    return "\n".join(keep)


def finish(r, ns):
    return repr(r)


def interpreted(v):
    """a code object of the program's version is run by the VM, whichever way it is given"""
    from xpython.pyobj import Function

    def fn(ctx):
        src = "x = ev(1)\ndef f(k):\n    return [k, x]\n"

        def run(on):
            def thunk():
                env = Env(ctx, {"ev": (E1,)})
                ns = env.ns()
                ns["K"] = K = compiled(on, src)
                form = ctx.choose("form", range(4 if v < (3, 0) else 3))
                ns["D"], ns["M"] = {"ev": env.ev}, {}
                top = ["exec(K)\n", "exec(K, D)\n", "exec(K, D, M)\n", "exec(W)\n"][form]
                if form == 3:
                    # (only Python 2 has exec of a tuple)
                    ns["W"] = (K, ns["D"], ns["M"])
                    top = top if on else "exec(K, D, M)\n"
                execute(v.vm(), compiled(v, top), ns, ns) if on else exec(compiled(None, top), ns)
                where = [d for d in (ns, ns["D"], ns["M"]) if "f" in d]
                ctx.ok(len(where) == 1, "one namespace is used")
                f = where[0]["f"]
                ctx.ok(not on or isinstance(f, Function), "the code is interpreted")
                return [[("x" in d, "f" in d, "__builtins__" in d) for d in (ns, ns["D"], ns["M"])]]
            return ctx.run(thunk)
        ctx.same(run(v), run(None), "code object")
    return H("%s/code-object" % v, fn, str(v))


def python2_exec(v):
    """a bare exec statement binds the names of the function it is in"""
    def fn(ctx):
        def vm():
            env = Env(ctx, {"ev": (E1,)})
            ns = env.ns()
            code = compiled(v, "def f(a):\n    exec('b = a + ev(1)')\n    return [eval('b'), a]\nx = 'g'\nR = []\ntry:\n    R = f(5)\nexcept E1:\n    R = ['E1']\nR.append('b' in globals())\n")
            # the flag, which this compiler sets, of a function whose names are resolved statically
            f = [k for k in code.co_consts if hasattr(k, "co_code")][0]
            f.co_flags &= ~1
            f.co_code = bytes(f.co_code)
            execute(v.vm(), code, ns, ns)
            return ns["R"]

        def host():
            env = Env(ctx, {"ev": (E1,)})
            try:
                return [5 + env.ev(1), 5, False]
            except E1:
                return ["E1", False]
        ctx.same(ctx.run(vm), ctx.run(host), "exec statement")
    return H("%s/bare-exec" % v, fn, str(v))


def run_file(v):
    """execfile(): the namespaces are as for exec"""
    import os
    import shutil
    import tempfile

    def fn(ctx):
        form, scope = ctx.choose("form", range(3)), ctx.choose("scope", range(3))
        args = ["", ", G", ", G, L"][form]
        call = "execfile(path%s)" % args
        src = "x = 'g'\nG = {'x': 'G', 'ev': ev}\nL = {'x': 'L'}\n" + [
            call + "\nR = [x]\n",
            "def f(x):\n    v = 1\n    " + call + "\n    return [x, sorted(locals())]\nR = f('p')\n",
            "class A(object):\n    x = 'c'\n    " + call + "\nR = [A.x, sorted(k for k in A.__dict__ if k[:2] != '__')]\n"][scope]
        src += "R.append([sorted(k for k in d if k in ('x', 'y', 'z')) for d in (globals(), G, L)])\nR.append([d.get('y') for d in (globals(), G, L)])\n"
        d = tempfile.mkdtemp(prefix="symx-c26-")
        path = os.path.join(d, "f.py")
        try:
            with open(path, "w") as f:
                f.write("y = x + 'y'\nev(1)\nz = sorted(k for k in locals() if k in ('x', 'y', 'v'))\n")

            def run(on):
                def thunk():
                    env = Env(ctx, {"ev": (E1,)})
                    ns = env.ns()
                    ns["path"] = path
                    text = src
                    if on:
                        from xpython.stdlib.builtins import execfile
                        ns["execfile"] = execfile
                        execute(v.vm(), compiled(v, text), ns, ns)
                    else:
                        text = text.replace("execfile(path", "exec(compile(open(path).read(), path, 'exec')")
                        exec(compiled(None, text), ns)
                    return repr(ns["R"])
                return ctx.run(thunk)
            ctx.same(run(v), run(None), "execfile")
        finally:
            shutil.rmtree(d)
    return H("%s/execfile" % v, fn, str(v))


def harnesses():
    hs = []
    faults = {"ev": (E1,)}
    for sname, scope in SCOPES.items():
        for what, text in (("eval", EVAL), ("exec", EXEC), ("locals", LOCALS)):
            opts = {"max_paths": 4000}
            t = indented(text, scope)
            two = indented(explicit_only(text), scope) if what == "exec" and sname not in ("module", "class", "class-in-function") else t
            if what == "exec":
                two = two.replace("exec(S, *(G, L))", "exec(S, G, L)")
            hs += src_checks([v for v in ALL if v >= (3, 0)], {"%s-%s" % (what, sname): (t, faults, opts)}, label="namespaces", finish=finish, prefix="3-")
            hs += src_checks([v for v in ALL if v < (3, 0)], {"%s-%s" % (what, sname): (two, faults, opts)}, label="namespaces", finish=finish, prefix="3-")
    hs += src_checks(ALL, {k: (t, faults) for k, t in MORE.items()}, label="namespaces", finish=finish)
    hs += src_checks(ALL, {k: (t, faults, {"lo": (3, 0)}) for k, t in T3.items()}, label="namespaces", finish=finish, prefix="3-")
    hs += src_checks([v for v in ALL if v.name == "3.12"], {k: (t, faults) for k, t in HOST.items()}, label="namespaces", finish=finish, prefix="host-")
    for v in ALL:
        hs.append(interpreted(v))
        if v < (3, 0):
            hs.append(python2_exec(v))
            hs.append(run_file(v))
    return hs


BOUNDS = ("every version; %d scopes x (16 sources of eval, 13 of exec) x 11 forms of namespaces, all combinations; %d further programs; exceptions raised in the code run"
          % (len(SCOPES), len(MORE) + len(T3) + len(HOST)))
ASSUMPTIONS = ["the host's builtins on the same program are the reference",
               "for bytecode of another version than the host, text given to eval and exec is compiled and run by the host, in the program's namespaces",
               "the names that a comprehension of its own scope sees are compared for 3.12 only",
               "calls made by host code, such as map(eval, ...), are not made by the interpreter"]
