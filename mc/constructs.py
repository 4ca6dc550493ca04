# -*- coding: utf-8 -*-
"""Catalogue of one-cell program fragments with known data flow.

Each fragment reads the global ``a`` (an int) and defines the global ``r`` from
it, whatever ``a``'s value is; names starting with ``_`` are local helpers.
``pre`` (optional) is a preceding cell that defines helpers; it does not read a.
"""


class C:
    __slots__ = ("name", "code", "pre", "reads", "static", "dyn")

    def __init__(self, name, code, pre=None, reads=("a",)):
        self.name, self.code, self.pre, self.reads = name, code, pre, reads

    def __repr__(self):
        return "C(%s)" % self.name


CLS = "class Box:\n    def __init__(self, v): self.v = v; self.l = [v]\n    def get(self): return self.v\n    def set(self, v):\n        self.v = v\n        return self\n    def __add__(self, o): return Box(self.v + o)"

READS = [
    C("add", "r = a + 1"),
    C("neg", "r = -a"),
    C("copy+", "r = a + 0"),
    C("cmp", "r = [a < 5, a]"),
    C("bool", "r = a and a + 1"),
    C("ifexp", "r = a if a > -1 else 0"),
    C("ifexp2", "r = (1 if a % 2 else 2) + a"),
    C("list", "r = [a, 1]"),
    C("tuple", "r = (1, a)"),
    C("dict", "r = {'k': a}"),
    C("dictkey", "r = {a: 1}"),
    C("set", "r = {a}"),
    C("nested", "r = [[a], {'k': (a, 2)}]"),
    C("star", "r = [*[a, 2], 3]"),
    C("dstar", "r = {**{'k': a}}"),
    C("sub", "r = [a, 2][0]"),
    C("idx", "r = list(range(9999))[a]"),
    C("slice", "r = list(range(9999))[a:a + 1]"),
    C("fstr", "r = f'v{a}'"),
    C("fstr2", "r = f'v{1:{a % 7}}{a!r}'"),
    C("pct", "r = '%d' % a"),
    C("call", "r = str(a)"),
    C("callkw", "r = dict(k=a)"),
    C("callstar", "r = max(*[a, 1])"),
    C("callnest", "r = len(str(abs(a))) + a"),
    C("method", "r = str(a).strip()"),
    C("method2", "r = 'x'.join([str(a)])"),
    C("methodchain", "r = str(a).strip().upper().lower()"),
    C("listcomp", "r = [a for _ in range(2)]"),
    C("listcomp2", "r = [_i for _i in [a, 2]]"),
    C("compif", "r = [_i for _i in range(9999) if _i == a]"),
    C("dictcomp", "r = {_i: a for _i in range(2)}"),
    C("setcomp", "r = {a + _i for _i in range(2)}"),
    C("genexp", "r = sum(a for _ in range(2))"),
    C("nestcomp", "r = [[a + _j for _j in range(2)] for _i in range(2)]"),
    C("lambda", "r = (lambda: a)()"),
    C("lambdaarg", "r = (lambda x: x + 1)(a)"),
    C("map", "r = list(map(lambda x: x + a, [1]))"),
    C("sortedkey", "r = sorted([3, a], key=lambda x: -x)"),
    C("lamdefault", "r = (lambda x=a: x)()"),
    C("lamnamed", "_g = lambda: a + 1\nr = _g()"),
    C("lamshadow", "_s = sorted([2, 1], key=lambda a: -a)\nr = [_s, a]"),
    C("lamkw", "r = sorted([1, 2], key=lambda _x: _x * -a)"),
    C("compiter", "a_ = [a]\nr = [a_ for a_ in a_]"),
    C("compshadow", "_s = [a for a in [1, 2]]\nr = [_s, a]"),
    C("annbare", "r: int\nr = a"),
    C("walrus", "r = (_w := a) + 1"),
    C("chain", "r = _q = a"),
    C("tupassign", "r, _q = a, 1"),
    C("tupassign2", "_q, r = 1, a"),
    C("starassign", "_q, *r = 1, a, 2"),
    C("nestassign", "(_q, (r, _z)) = 1, (a, 2)"),
    C("annassign", "r: int = a"),
    C("aug", "r = 0\nr += a"),
    C("auglist", "r = []\nr += [a]"),
    C("swap", "_p = a\n_q = 1\n_q, _p = _p, _q\nr = _q"),
    C("twostep", "_p = a + 1\nr = _p * 2"),
    C("append", "r = []\nr.append(a)"),
    C("extend", "r = [0]\nr.extend([a])"),
    C("insert", "r = [0]\nr.insert(0, a)"),
    C("setitem", "r = [0, 1]\nr[0] = a"),
    C("dsetitem", "r = {}\nr['k'] = a"),
    C("dupdate", "r = {}\nr.update(k=a)"),
    C("setdefault", "r = {}\nr.setdefault('k', a)"),
    C("sadd", "r = set()\nr.add(a)"),
    C("if", "r = 0\nif a >= 0:\n    r = a"),
    C("if2", "if a >= 0:\n    r = a\nelse:\n    r = -a"),
    C("iftest", "if a % 2:\n    r = 'odd%d' % a\nelse:\n    r = 'even%d' % a"),
    C("for", "r = 0\nfor _i in range(3):\n    r = r + a"),
    C("foriter", "r = 0\nfor _i in [a, 2]:\n    r += _i"),
    C("fortarget", "for r in [1, a]:\n    pass"),
    C("forappend", "r = []\nfor _i in range(3):\n    r.append(a + _i)"),
    C("while", "r = 0\n_n = 0\nwhile _n < 2:\n    r += a\n    _n += 1"),
    C("try", "try:\n    r = a\nfinally:\n    pass"),
    C("try2", "try:\n    raise ValueError(a)\nexcept ValueError as _e:\n    r = _e.args[0]"),
    C("tryelse", "try:\n    pass\nexcept Exception:\n    r = 0\nelse:\n    r = a"),
    C("with", "import contextlib\nwith contextlib.nullcontext(a) as r:\n    pass"),
    C("withbody", "import contextlib\nwith contextlib.suppress(KeyError):\n    r = a"),
    C("def", "def _f():\n    return a\nr = _f()"),
    C("defarg", "def _f(x):\n    return x + 1\nr = _f(a)"),
    C("defkw", "def _f(x, *, y=1):\n    return x + y\nr = _f(1, y=a)"),
    C("defdefault", "def _f(x=a):\n    return x\nr = _f()"),
    C("defnest", "def _f():\n    def _g():\n        return a\n    return _g()\nr = _f()"),
    C("closure", "def _f(x):\n    def _g():\n        return x\n    return _g\nr = _f(a)()"),
    C("defglobal", "def _f():\n    global r\n    r = a\n_f()"),
    C("gen", "def _g():\n    yield a\nr = list(_g())"),
    C("deco", "def _d(fn):\n    return lambda: fn() + 1\n@_d\ndef _f():\n    return a\nr = _f()"),
    C("class", "class _K:\n    x = a\nr = _K.x"),
    C("classattr", "class _K:\n    pass\n_ko = _K()\n_ko.x = a\nr = _ko.x"),
    C("classinit", "class _K:\n    def __init__(self, v):\n        self.v = v\nr = _K(a).v"),
    C("classmeth", "class _K:\n    def m(self, v):\n        return v + 1\nr = _K().m(a)"),
    C("assertr", "assert a >= 0\nr = a"),
    C("match", "match a:\n    case 0:\n        r = 'z'\n    case _q:\n        r = _q"),
    C("del", "_t = a\nr = _t\ndel _t"),
    C("print", "print(a)\nr = a"),
    C("funcpre", "r = fpre(a)", pre="def fpre(x):\n    return x * 2"),
    C("funcpre2", "r = fpre(1, k=a)", pre="def fpre(x, k=0):\n    return x + k"),
    C("lampre", "r = fpre(a)", pre="fpre = lambda x: x * 2"),
    C("box", "r = Box(a)", pre=CLS),
    C("boxattr", "r = Box(a).v", pre=CLS),
    C("boxget", "r = Box(a).get()", pre=CLS),
    C("boxset", "r = Box(0)\nr.set(a)", pre=CLS),
    C("boxstore", "r = Box(0)\nr.v = a", pre=CLS),
    C("boxl", "r = Box(a).l[0]", pre=CLS),
    C("boxadd", "r = Box(0) + a", pre=CLS),
    C("conpre", "r = [con[0], a]", pre="con = [5]"),
    C("import", "import math\nr = math.floor(a)"),
    C("importfrom", "from math import floor as _fl\nr = _fl(a)"),
    C("await", "async def _f():\n    return a\nr = await _f()"),
    C("awaitarg", "async def _f(x):\n    return x\nr = await _f(a)"),
    C("np", "import numpy as np\nr = np.array([a, 1])"),
    C("npadd", "import numpy as np\nr = np.arange(3) + a"),
    C("df", "import pandas as pd\nr = pd.DataFrame({'x': [a, 2]})"),
    C("dfcol", "import pandas as pd\nr = pd.DataFrame({'x': [1, 2]})\nr['y'] = a"),
]

# consumers: read the global r (any value)
USES = [
    "str(r)",
    "print(f'{r}')",
    "def _u():\n    return r\n_u()",
    "s = str(r) + 'x'",
    "for _k in [str(r)]:\n    pass",
    "r",
    "s = len(str(r)), 1\ns",
    "if r is not None:\n    print(r)",
]
# consumers that bind the object r refers to under another name
ALIAS_USES = ["s = r\nstr(r)", "s = [r]", "s = {'k': r}", "s = r, 1"]
