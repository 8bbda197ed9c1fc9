"""C20 class statements build the class Python would build."""
from symx.lib import *  # noqa
from symx.anyvalue import any_checks

PROP = "C20"

META = '''
class M(type):
    def __new__(m, name, bases, ns, **kw):
        ev('new', name, len(bases), sorted(kw.items()), sorted(k for k in ns if k[:2] != '__'))
        return type.__new__(m, name, bases, dict(ns))
    def __init__(cls, name, bases, ns, **kw):
        ev('init', name, sorted(kw.items()))
        type.__init__(cls, name, bases, ns)
'''
LOOK = '''
def look(A):
    d = A.__dict__
    return [A.__name__, [b.__name__ for b in A.__bases__], [b.__name__ for b in A.__mro__], type(A).__name__,
            A.__module__, A.__doc__, sorted((k, str(type(d[k]).__name__ in ('function', 'Function')) if callable(d[k]) else repr(d[k]))
                                           for k in d if k[:2] != '__')]
'''
T = {
    "plain": "class A(object):\n    x = ev(1)\n    y = [x, ev(2)]\n    def m(self, z=ev(3)):\n        return [self.x, z]\nR = [look(A), A().m(), A().m(7), A.y]\n",
    "doc": "class A(object):\n    'the doc'\n    x = 1\nclass B(A):\n    pass\nR = [look(A), look(B)]\n",
    "bases": "class A(object):\n    def f(self):\n        return 'A'\nclass B(A):\n    def f(self):\n        return 'B' + A.f(self)\nclass C(A):\n    def f(self):\n        return 'C' + A.f(self)\n"
             "class D(B, C):\n    pass\nclass E(C, B):\n    x = 1\nR = [look(D), look(E), D().f(), E().f(), isinstance(D(), C), issubclass(E, B)]\n",
    "base-order": "class A(object):\n    pass\nclass B(object):\n    pass\nR = []\ntry:\n    class C(ev(1) and A, ev(2) and B):\n        x = ev(3)\n    R.append(look(C))\nexcept E1:\n    R.append('E1')\n",
    "bad-bases": "class A(object):\n    pass\nclass B(A):\n    pass\nR = []\ntry:\n    class C(A, B):\n        x = ev(1)\nexcept TypeError:\n    R.append('mro')\ntry:\n    class D(A, A):\n        x = ev(2)\nexcept TypeError:\n"
                 "    R.append('twice')\ntry:\n    class F(bool):\n        x = ev(3)\nexcept TypeError:\n    R.append('bool')\nR.append('F' in globals())\n",
    "body-control": "class A(object):\n    if c(1):\n        x = 1\n    else:\n        y = 2\n    for i in it(1):\n        if c(2):\n            break\n    try:\n        z = ev(3)\n    except E2:\n        z = 'E2'\nR = look(A)\n",
    "body-raises": "R = []\ntry:\n    class A(object):\n        x = ev(1)\n        y = ev(2)\nexcept E1:\n    R.append('E1')\nR.append('A' in globals())\n",
    "body-names": "x = 'g'\ndef f():\n    x = 'f'\n    class A(object):\n        y = x\n        def m(self):\n            return x\n    class B(object):\n        z = len('abc')\n        len = 5\n        w = len\n    return [A.y, A().m(), B.z, B.w]\nR = f()\n",
    "body-shadow": "x = 'g'\nclass A(object):\n    a = x\n    x = 'c'\n    b = x\n    del x\n    d = x\n    def m(self):\n        return x\nR = [A.a, A.b, A.d, A().m(), hasattr(A, 'x')]\n",
    "local-class": "def f(n):\n    class A(object):\n        v = n\n        def get(self):\n            return [n, self.v]\n    return A\nA, B = f(1), f(2)\nR = [A().get(), B().get(), A is B, look(A)]\n",
    "nested": "class A(object):\n    class B(object):\n        x = ev(1)\n        class C(object):\n            y = 2\n    z = B.x\nR = [look(A.B), look(A.B.C), A.z]\n",
    "decorated": "def d(k):\n    ev('d', k)\n    def deco(c):\n        ev('deco', k, c.__name__)\n        c.k = getattr(c, 'k', ()) + (k,)\n        return c\n    return deco\n@d(1)\n@d(2)\nclass A(object):\n    x = ev(3)\nR = [A.k, A.x]\n",
    "methods": "class A(object):\n    def m(self, *a, **k):\n        return ['m', a, sorted(k.items())]\n    @staticmethod\n    def s(*a):\n        return ['s', a]\n    @classmethod\n    def c(cls, *a):\n        return [cls.__name__, a]\n    @property\n    def p(self):\n        return ev(1)\n"
               "class B(A):\n    pass\na = B()\nR = [a.m(1, x=2), a.s(1), A.s(2), a.c(3), B.c(4), a.p]\nf = a.m\nR.append(f(9))\n",
    "special-methods": "class A(object):\n    def __init__(self, x):\n        self.x = x\n    def __add__(self, o):\n        return A(self.x + o)\n    def __radd__(self, o):\n        return A(o - self.x)\n    def __len__(self):\n        return ev(1)\n    def __getitem__(self, i):\n        return ('item', i)\n"
                       "    def __setitem__(self, i, v):\n        ev('set', i, v)\n    def __delitem__(self, i):\n        ev('del', i)\n    def __contains__(self, i):\n        return i == 3\n    def __call__(self, *a):\n        return a\n    def __eq__(self, o):\n        return ev(2) == 2\n    def __iter__(self):\n        return iter((1, 2))\n"
                       "    def __enter__(self):\n        return 'entered'\n    def __exit__(self, *a):\n        return ev(3) == 3\n    def __getattr__(self, n):\n        return n * 2\n    def __neg__(self):\n        return -self.x\n"
                       "a = A(1)\nR = [(a + 2).x, (2 + a).x, len(a), a[5], 3 in a, 4 in a, a(7, 8), a == 1, list(a), a.zz, -a]\na[1] = 2\ndel a[3]\nwith a as b:\n    R.append(b)\n    ev(4)\n",
    "new": "class A(object):\n    def __new__(cls, *a):\n        ev('new', cls.__name__, a)\n        self = object.__new__(cls)\n        self.a = a\n        return self\n    def __init__(self, *a):\n        ev('init', a)\nclass B(A):\n    pass\nR = [A(1, 2).a, B(3).a, A.__new__(B, 5).a]\n",
    "new-other": "class A(object):\n    def __new__(cls, x):\n        if c(1):\n            return x\n        return object.__new__(cls)\n    def __init__(self, x):\n        ev('init', x)\nR = A(5) == 5\n",
    "descriptor": "class D(object):\n    def __get__(self, o, t):\n        return [o is None, t.__name__]\n    def __set__(self, o, v):\n        ev('set', v)\n    def __delete__(self, o):\n        ev('delete')\nclass A(object):\n    d = D()\na = A()\nR = [A.d, a.d]\na.d = 1\ndel a.d\n",
    "slots": "class A(object):\n    __slots__ = ('x', 'y')\na = A()\na.x = ev(1)\nR = [a.x, hasattr(a, 'y')]\ntry:\n    a.z = 1\nexcept AttributeError:\n    R.append('no z')\n",
    "private": "class A(object):\n    __x = ev(1)\n    def m(self, __y=2):\n        self.__z = 3\n        return [self.__x, __y, self.__z]\nR = [A().m(), sorted(k for k in A.__dict__ if 'x' in k)]\n",
    "super2": "class A(object):\n    def f(self, x):\n        return ['A', ev(x)]\n    @classmethod\n    def k(cls):\n        return ['Ak', cls.__name__]\nclass B(A):\n    def f(self, x):\n        return ['B'] + super(B, self).f(x)\n    @classmethod\n    def k(cls):\n        return ['Bk'] + super(B, cls).k()\nR = [B().f(1), B.k(), B().k()]\n",
    "exception-class": "class X(Exception):\n    def __init__(self, a):\n        Exception.__init__(self, a, 'more')\n        self.a = a\n    def __str__(self):\n        return 'X<%s>' % self.a\nR = []\ntry:\n    raise X(ev(1))\nexcept X as e:\n    R = [e.args, e.a, str(e)]\n",
    "builtin-base": "class L(list):\n    def append(self, x):\n        ev('append', x)\n        list.append(self, x)\nclass I(int):\n    def __add__(self, o):\n        return I(int.__add__(self, o) * 2)\nl = L([1])\nl.append(2)\nR = [l == [1, 2], len(l), int(I(3) + 4), isinstance(I(1) + 1, I)]\n",
    "iterator-class": "class A(object):\n    def __init__(self):\n        self.i = 0\n    def __iter__(self):\n        return self\n    def __next__(self):\n        self.i += 1\n        if self.i > 2:\n            raise StopIteration\n        return ev(self.i)\n    next = __next__\nR = [x for x in A()]\n",
    "generator-method": "class A(object):\n    def g(self):\n        yield 1\n        yield self\na = A()\nR = [len(list(a.g())), list(a.g())[1] is a]\n",
    "instance-function": "class A(object):\n    pass\ndef f(*x):\n    return x\na = A()\na.f = f\nA.g = f\nR = [a.f(1), a.g(1)[1:], len(a.g())]\n",
    "type3": "class A(object):\n    x = ev(1)\nns = {'y': ev(2)}\nB = type('B', (A,), ns)\nR = [look(B), B.x, B.y, sorted(ns)]\n",
}
T3 = {
    "metaclass": (META + "class A(metaclass=M):\n    x = ev(1)\nclass B(A):\n    y = ev(2)\nR = [look(A), look(B)]\n", {"ev": (E1,)}),
    "metaclass-kw": META + "class A(metaclass=M, b=ev('b'), a=ev('a')):\n    x = 1\nR = look(A)\n",
    "metaclass-derived": META + "class N(M):\n    pass\nclass A(metaclass=M):\n    pass\nclass B(metaclass=N):\n    pass\nclass C(A, B):\n    pass\nclass D(A, metaclass=N):\n    pass\nclass F(B, metaclass=M):\n    pass\nR = [look(C), look(D), look(F)]\n",
    "metaclass-conflict": "class M(type):\n    pass\nclass N(type):\n    pass\nclass A(metaclass=M):\n    pass\nclass B(metaclass=N):\n    pass\nR = []\ntry:\n    class C(A, B):\n        x = ev(1)\nexcept TypeError:\n    R.append('conflict')\ntry:\n    class D(A, metaclass=N):\n        x = ev(2)\nexcept TypeError:\n    R.append('conflict')\n",
    "metaclass-function": "def mk(name, bases, ns, **kw):\n    ev('mk', name, len(bases), sorted(kw.items()), ns['x'])\n    return [name, ns['x']]\nclass A(metaclass=mk, z=1):\n    x = ev(1)\nR = A\n",
    "metaclass-raises": "class M(type):\n    def __new__(m, name, bases, ns):\n        ev('new')\n        return type.__new__(m, name, bases, ns)\n    def __init__(cls, name, bases, ns):\n        ev('init')\n        if c(1):\n            raise TypeError('init')\nR = []\ntry:\n    class A(metaclass=M):\n        x = ev(1)\n    R.append(A.x)\nexcept TypeError as e:\n    R.append(str(e))\n",
    "metaclass-call": "class M(type):\n    def __call__(cls, *a, **k):\n        ev('call', cls.__name__, a, sorted(k.items()))\n        return type.__call__(cls, *a)\nclass A(metaclass=M):\n    def __init__(self, x):\n        self.x = x\nR = A(5, y=1).x\n",
    "metaclass-attrs": "class M(type):\n    z = 5\n    def f(cls):\n        return cls.__name__\n    def __getattr__(cls, n):\n        return n\n    def __len__(cls):\n        return 3\nclass A(metaclass=M):\n    pass\nR = [A.z, A.f(), A.qq, len(A), hasattr(A(), 'z')]\n",
    "metaclass-super": "class M(type):\n    def __new__(m, name, bases, ns):\n        return super().__new__(m, name, bases, ns)\n    def __init__(cls, name, bases, ns):\n        super().__init__(name, bases, ns)\n        ev('init', name)\nclass A(metaclass=M):\n    def f(self):\n        return 'A'\nclass B(A):\n    def f(self):\n        return 'B' + super().f()\nR = B().f()\n",
    "prepare": "class P(dict):\n    def __setitem__(self, k, v):\n        k == '__qualname__' or ev('set', k)\n        dict.__setitem__(self, k, v)\nclass M(type):\n    @classmethod\n    def __prepare__(m, name, bases, **kw):\n        ev('prepare', m.__name__, name, len(bases), sorted(kw.items()))\n        return P(pre=1)\n    def __new__(m, name, bases, ns, **kw):\n        ev('new', type(ns).__name__, sorted(kw.items()))\n        return type.__new__(m, name, bases, dict(ns))\n    def __init__(cls, *a, **kw):\n        pass\nclass A(metaclass=M, k=2):\n    x = pre\n    y = ev(1)\nclass B(A):\n    z = 2\nR = [look(A), look(B)]\n",
    "prepare-mapping": "class P(object):\n    def __init__(self):\n        self.d = {}\n    def __getitem__(self, k):\n        ev('get', k)\n        return self.d[k]\n    def __setitem__(self, k, v):\n        k == '__qualname__' or ev('set', k)\n        self.d[k] = v\n    def __delitem__(self, k):\n        ev('del', k)\n        del self.d[k]\nclass M(type):\n    @classmethod\n    def __prepare__(m, name, bases):\n        return P()\n    def __new__(m, name, bases, ns):\n        return type.__new__(m, name, bases, ns.d)\nclass A(metaclass=M):\n    x = 1\n    y = x\n    del x\n    z = len('ab')\nR = look(A)\n",
    "prepare-raises": ("class M(type):\n    @classmethod\n    def __prepare__(m, name, bases):\n        ev('prepare')\n        return {}\nR = []\ntry:\n    class A(metaclass=M):\n        x = ev(1)\nexcept E1:\n    R.append('E1')\nR.append('A' in globals())\n", {"ev": (E1,)}),
    "init-subclass": "class A:\n    def __init_subclass__(cls, **kw):\n        ev('is', cls.__name__, sorted(kw.items()), cls.x)\n        super().__init_subclass__()\n        cls.k = sorted(kw)\nclass B(A, p=ev(1), q=ev(2)):\n    x = 1\nclass C(B):\n    x = 2\nR = [B.k, C.k]\n",
    "init-subclass-super": "class A:\n    def __init_subclass__(cls):\n        ev('v', cls().f())\n    def f(self):\n        return 'A'\nclass B(A):\n    def f(self):\n        return 'B' + super().f() + __class__.__name__\nR = B().f()\n",
    "init-subclass-raises": "class A:\n    def __init_subclass__(cls):\n        if c(1):\n            raise TypeError('no')\nR = []\ntry:\n    class B(A):\n        x = ev(1)\n    R.append(look(B))\nexcept TypeError as e:\n    R.append(str(e))\n",
    "kw-no-hook": "R = []\ntry:\n    class A(x=ev(1)):\n        y = ev(2)\nexcept TypeError:\n    R.append('TypeError')\n",
    "set-name": "class D:\n    def __set_name__(self, owner, name):\n        ev('sn', owner.__name__, name)\n        self.n = name\nclass A:\n    a = D()\n    b = D()\nR = [A.a.n, A.b.n]\n",
    "class-getitem": "class A:\n    def __class_getitem__(cls, i):\n        return [cls.__name__, i]\nclass B(A):\n    pass\nR = [A[1], B[2, 3]]\n",
    "mro-entries": "class A:\n    x = 1\nclass P:\n    def __mro_entries__(self, bases):\n        ev('mro', len(bases))\n        return (A,) if c(1) else ()\np = P()\nclass B(p):\n    y = ev(1)\nR = [look(B), B.__orig_bases__ == (p,)]\n",
    "generic": "class A:\n    x = 1\nclass L(list[int]):\n    y = 2\nR = [look(L), len(L.__orig_bases__), L([1]) == [1]]\n",
    "super0": "class A:\n    def f(self, x=0):\n        return ['A', x]\n    @classmethod\n    def k(cls):\n        return ['Ak', cls.__name__]\n    @property\n    def p(self):\n        return 'Ap'\nclass B(A):\n    def f(self, x=0):\n        return ['B'] + super().f(x + 1)\n    @classmethod\n    def k(cls):\n        return ['Bk'] + super().k()\n    @property\n    def p(self):\n        return 'Bp' + super().p\n    def w(self):\n        return __class__.__name__\nclass C(B):\n    def f(self, x=0):\n        return ['C'] + super().f(x + 1)\nR = [B().f(), C().f(), B.k(), C.k(), C().p, C().w()]\n",
    "super0-nested": "class A:\n    def f(self):\n        return 'A'\nclass B(A):\n    def f(self):\n        def g():\n            return super(__class__, self).f() + __class__.__name__\n        return g()\n    def h(self):\n        return [super(__class__, self).f() for i in (1, 2)]\n    def k(self):\n        s = super()\n        return s.f()\nR = [B().f(), B().h(), B().k()]\n",
    "super0-errors": "class A:\n    def f(self):\n        del self\n        return super().f()\n    def g(*a):\n        return super().g()\n    def h(self):\n        return super().nothing\nR = []\nfor n in 'fgh':\n    try:\n        getattr(A(), n)()\n    except (RuntimeError, AttributeError, NameError) as e:\n        R.append(n if n == 'f' else [type(e).__name__, str(e)])\n",
    "super0-new": "class A:\n    def __new__(cls, *a):\n        ev('new', cls.__name__)\n        return super().__new__(cls)\n    def __init__(self, *a):\n        super().__init__()\n        ev('init', a)\n    def __setattr__(self, n, v):\n        ev('sa', n)\n        super().__setattr__(n, v)\nclass B(A):\n    def __init__(self):\n        super().__init__(1, 2)\n        self.x = 3\nR = B().x\n",
    "cell-before": "def f():\n    class A:\n        def m(self):\n            return __class__\n        try:\n            m(None)\n        except NameError:\n            e = 'NameError'\n    return [A.e, A().m() is A]\nR = f()\n",
    "qualname": "class A:\n    class B:\n        def m(self):\n            pass\ndef f():\n    class C:\n        pass\n    return C\nR = [A.B.__qualname__, f().__qualname__, A.B.m.__qualname__]\n",
    "annotations": "class A:\n    x: int\n    y: str = ev(1)\nR = [sorted(A.__annotations__.items(), key=str), A.y, hasattr(A, 'x')]\n",
    "star-bases": "class A:\n    pass\nclass B:\n    pass\nb = [A, B]\nk = {'metaclass': type}\nclass C(*b, **k):\n    x = ev(1)\nR = look(C)\n",
    "class-in-loop": "R = []\nfor i in (1, 2):\n    class A:\n        x = i\n        def f(self):\n            return [self.x, i, __class__.x]\n    R.append(A)\nR = [k().f() for k in R]\n",
    "abc": "import abc\nclass A(abc.ABC):\n    @abc.abstractmethod\n    def f(self):\n        return 'A'\nclass B(A):\n    def f(self):\n        return 'B' + super().f()\nR = [B().f()]\ntry:\n    A()\nexcept TypeError:\n    R.append('abstract')\n",
    "enum": "import enum\nclass A(enum.Enum):\n    x = 1\n    y = ev(2)\n    def f(self):\n        return self.value\nR = [A.x.name, A.y.value, A(1) is A.x, A.x.f(), [m.name for m in A]]\n",
    "dataclass": "import dataclasses\n@dataclasses.dataclass\nclass A:\n    x: int\n    y: int = 5\n    def s(self):\n        return self.x + self.y\nR = [A(1).s(), A(1, 2) == A(1, 2), repr(A(3))]\n",
    "namedtuple": "import typing\nclass A(typing.NamedTuple):\n    x: int\n    y: int = 5\n    def s(self):\n        return self.x + self.y\nR = [A(1).s(), A(1, 2) == (1, 2), A(3)._asdict()]\n",
    "type-params": "class A[T]:\n    def f[U](self, x):\n        return x\nR = [A().f(3), len(A.__type_params__)]\n",
}
GRID = META + """
class N(M):
    pass
class O(type):
    pass
def fun(name, bases, ns, **kw):
    ev('fun', name, sorted(kw.items()))
    return type(name, bases, ns)
class A(object):
    pass
class B(A):
    pass
class C(A, metaclass=M):
    pass
class D(metaclass=N):
    pass
class E(metaclass=O):
    pass
S = (A, B, C, D, E, object)
R = []
bases = tuple([S[n('b%d' % i, 0, 5)] for i in range(n('len'))])
kw = [{}, {'metaclass': type}, {'metaclass': M}, {'metaclass': N}, {'metaclass': O}, {'metaclass': fun}, {'metaclass': M, 'k': 1}][n('meta', 0, 6)]
try:
    class X(*bases, **kw):
        x = ev(1)
        def f(self):
            return __class__.__name__ + self.__class__.__name__
    R = [look(X), X().f()]
except TypeError as e:
    R = ['TypeError']
"""
GRID2 = """
class A(object):
    pass
class B(A):
    pass
class C(A):
    z = 1
S = (A, B, C, object)
R = []
try:
    if c(1):
        class X(S[n('b1', 0, 3)]):
            x = ev(1)
    else:
        class X(S[n('b1', 0, 3)], S[n('b2', 0, 3)]):
            x = ev(1)
            def f(self):
                return self.x
    R = look(X)
except TypeError:
    R = ['TypeError']
"""
T["grid"] = GRID2
T3["grid"] = GRID
T3.update({
    "kw-names": "class A:\n    def __init_subclass__(cls, /, **kw):\n        ev('is', sorted(kw.items()))\nclass B(A, name=1, func=2, opc=3, bases=4):\n    x = 1\nR = look(B)\n",
    "prepare-bad": "class M(type):\n    @classmethod\n    def __prepare__(m, name, bases):\n        return [3, {}, None][n(1)]\nR = []\ntry:\n    class A(metaclass=M):\n        x = 1\n    R.append('made')\nexcept TypeError as e:\n    R.append('TypeError')\n",
    "no-classcell": "class M(type):\n    def __new__(m, name, bases, ns):\n        if c(1):\n            ns.pop('__classcell__')\n        return type.__new__(m, name, bases, ns)\nR = []\ntry:\n    class A(metaclass=M):\n        def f(self):\n            return __class__\n    R.append(A().f() is A)\nexcept RuntimeError as e:\n    R.append('RuntimeError')\n",
    "two-classes": "class M(type):\n    def __new__(m, name, bases, ns):\n        a = type.__new__(m, name, bases, dict(ns))\n        b = type.__new__(m, name, bases, dict(ns))\n        return b if c(1) else a\nR = []\ntry:\n    class A(metaclass=M):\n        def f(self):\n            return __class__\n    R.append(A().f() is A)\nexcept TypeError as e:\n    R.append('TypeError')\n",
    "with-metaclass": META + "def with_metaclass(meta, *bases):\n    class T(type):\n        def __new__(m, name, b, ns):\n            return meta(name, bases, ns)\n    return type.__new__(T, 'temp', (), {})\nclass A(object):\n    pass\nclass X(with_metaclass(M, A)):\n    x = ev(1)\nR = look(X)\n",
    "type-calls": META + "class A:\n    def __init_subclass__(cls, **k):\n        ev('is', sorted(k.items()))\nns = {'x': 1, '__module__': 'mm'}\nX = type('X', (A,), ns, k=2)\nY = M('Y', (), {'y': 2})\nZ = type.__new__(type, 'Z', (A,), {})\nclass O(type):\n    pass\nW = O('W', (), {})\nR = [look(X), look(Y), look(Z), look(W), sorted(ns), type(3).__name__]\ntry:\n    type('V', (), 5)\nexcept TypeError:\n    R.append('ns')\n",
    "type-functions": "def nw(cls, *a):\n    return object.__new__(cls)\ndef isub(cls):\n    ev('is', cls.__name__)\ndef cg(cls, i):\n    return [cls.__name__, i]\nA = type('A', (), {'__new__': nw, '__init_subclass__': isub, '__class_getitem__': cg})\nclass B(A):\n    pass\nR = [type(A(1)).__name__, type(B()).__name__, A[1], B[2]]\n",
    "late-cell": "class D:\n    def __set_name__(self, owner, name):\n        ev('sn', owner().f() is owner)\nclass M(type):\n    def __init__(cls, name, bases, ns):\n        ev('init', cls().f() is cls)\nclass A(metaclass=M):\n    d = D()\n    def f(self):\n        return __class__\nR = A().f() is A\n",
    "global-in-class": "x = 1\ndef f():\n    y = 2\n    class A:\n        global x\n        nonlocal y\n        x = 5\n        y = 6\n    return [y, hasattr(A, 'x'), hasattr(A, 'y')]\nR = f() + [x]\n",
    "comprehension-in-class": "class A:\n    x = (1, 2)\n    y = [i * 2 for i in x]\n    try:\n        z = [i for i in (1, 2) if x]\n    except NameError:\n        z = 'NameError'\n    def f(self):\n        return [self.y for j in self.x]\nR = [A.y, A.z, A().f(), hasattr(A, 'i')]\n",
    "lambda-in-class": "class A:\n    k = 3\n    f = lambda self, x=k: [x, self.k]\n    g = staticmethod(lambda: ev(1))\nR = [A().f(), A().f(7), A.g()]\n",
    "recursive-body": "def mk(d):\n    class A:\n        depth = d\n        inner = mk(d - 1) if d else None\n        def m(self):\n            return __class__.depth\n    return A\na = mk(2)\nR = [a().m(), a.inner().m(), a.inner.inner().m(), a.inner.inner.inner]\n",
    "ordered": "class M(type):\n    def __new__(m, name, bases, ns):\n        ev('order', [k for k in ns if k[:2] != '__'])\n        return type.__new__(m, name, bases, ns)\nclass A(metaclass=M):\n    z = 1\n    a = 2\n    def m(self):\n        pass\n    z = 3\n    if c(1):\n        del a\n        a = 4\nR = [k for k in A.__dict__ if k[:2] != '__']\n",
})
# (Python 2, the same for the host)
T2 = {
    "metaclass2": (META + "class A(object):\n    __metaclass__ = M\n    x = ev(1)\nclass B(A):\n    y = ev(2)\nclass C(A, object):\n    pass\nR = [look(A), look(B), look(C), A.__metaclass__ is M]\n",
                   META + "class A(object, metaclass=M):\n    __metaclass__ = M\n    x = ev(1)\nclass B(A):\n    y = ev(2)\nclass C(A, object):\n    pass\nR = [look(A), look(B), look(C), A.__metaclass__ is M]\n"),
    "metaclass2-function": ("def mk(name, bases, ns):\n    ev('mk', name, len(bases))\n    return [name, ns['x']]\nclass A(object):\n    __metaclass__ = mk\n    x = ev(1)\nR = A\n",
                            "def mk(name, bases, ns):\n    ev('mk', name, len(bases))\n    return [name, ns['x']]\nclass A(object, metaclass=mk):\n    x = ev(1)\nR = A\n"),
    "metaclass2-global": (META + "__metaclass__ = M\nclass A:\n    x = ev(1)\nclass B(object):\n    x = 2\nR = [look(A), look(B)]\n", META + "__metaclass__ = M\nclass A(metaclass=M):\n    x = ev(1)\nclass B(object):\n    x = 2\nR = [look(A), look(B)]\n"),
    "metaclass2-raises": ("class M(type):\n    def __init__(cls, name, bases, ns):\n        ev('init')\n        if c(1):\n            raise TypeError('init')\n        if c(2):\n            raise E1('x')\nR = []\ntry:\n    class A(object):\n        __metaclass__ = M\n        x = ev(1)\n    R.append(A.x)\nexcept TypeError:\n    R.append('T')\nexcept E1:\n    R.append('E1')\n",
                          "class M(type):\n    def __init__(cls, name, bases, ns):\n        ev('init')\n        if c(1):\n            raise TypeError('init')\n        if c(2):\n            raise E1('x')\nR = []\ntry:\n    class A(object, metaclass=M):\n        x = ev(1)\n    R.append(A.x)\nexcept TypeError:\n    R.append('T')\nexcept E1:\n    R.append('E1')\n"),
    "old-style": ("class A:\n    x = ev(1)\n    def f(self):\n        return ['A', self.x]\nclass B(A):\n    def f(self):\n        return ['B'] + A.f(self)\nR = [B().f(), B.x, isinstance(B(), A)]\n",) * 2,
}


def finish(r, ns):
    return repr(r)

# 3.6 and 3.7 warn where later versions raise
LO = {"init-subclass": (3, 6), "init-subclass-super": (3, 6), "init-subclass-raises": (3, 6), "set-name": (3, 6), "class-getitem": (3, 7), "mro-entries": (3, 7),
      "generic": (3, 9), "qualname": (3, 3), "annotations": (3, 6), "kw-names": (3, 8), "no-classcell": (3, 8), "two-classes": (3, 6), "type-calls": (3, 6), "type-functions": (3, 7),
      "late-cell": (3, 6)}
FAULTY = "plain base-order body-control body-raises nested decorated super2 type3".split()


def python2(v, name):
    ours, hosts = (LOOK + x for x in T2[name])

    def fn(ctx):
        def vm():
            env = Env(ctx, {"ev": (E1,)})
            ns = env.ns()
            execute(v.vm(), compiled(v, ours), ns, ns)
            return repr(ns.get("R"))

        def host():
            env = Env(ctx, {"ev": (E1,)})
            ns = env.ns()
            exec(compiled(None, hosts), ns)
            return repr(ns.get("R"))
        ctx.same(ctx.run(vm), ctx.run(host), "class")
    return H("%s/%s" % (v, name), fn, str(v))


def harnesses():
    t = {k: (x, {"ev": (E1, E2)} if k in FAULTY else None) for k, x in T.items()}
    t3 = {k: x if isinstance(x, tuple) else (x, None) for k, x in T3.items() if k != "type-params"}
    for d in (t, t3):
        for k in d:
            d[k] = (LOOK + d[k][0], d[k][1], {"lo": LO.get(k, (3, 0) if d is t3 else (0,)), "max_paths": 8000})
    hs = src_checks(ALL, t, label="class", finish=finish)
    hs += src_checks([v for v in ALL if v >= (3, 0)], t3, label="class", finish=finish, prefix="3-")
    hs += [python2(v, name) for v in ALL if v < (3, 0) for name in T2]
    hs += any_checks(PROP, ALL)
    return hs


BOUNDS = ("every version; %d class programs with symbolic control flow and exceptions in bodies and hooks; all lists of up to 2 of 6 bases with 7 choices of metaclass and keywords"
          % (len(T) + len(T3) + len(T2)))
ASSUMPTIONS = ["the host's class statement is the reference; for Python 2 bytecode, the host's class statement with the metaclass that Python 2 selects",
               "there are no old-style classes: the host makes new-style ones",
               "type parameters (3.12) are not implemented: see C15's findings"]
