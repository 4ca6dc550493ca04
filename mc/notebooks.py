# -*- coding: utf-8 -*-
"""Notebooks (one source per cell) with mutation, aliasing, scoping and control
flow, for the checks that compare against re-execution."""

RICH = {
    "list": ["a = 1000", "l = [1, 2]", "l.append(a)", "m = l", "m[0] = a + 1", "s = sum(l)", "zz = 5", "l[-1] += 1"],
    "dict": ["a = 1000", "d = {'x': 1}", "d['y'] = a", "e = {'d': d}", "e['d']['z'] = a", "v = list(d.values())", "zz = 5"],
    "obj": ["a = 1000", "class Box: pass\no = Box()\no.v = 1", "o.v = a", "p = o", "p.w = o.v + 1", "q = (o.v, getattr(o, 'w', None))", "zz = 5"],
    "aug": ["a = 1000", "t = 5", "t += a", "u = t * 2", "if u > 2000:\n    t = u", "for i in range(2):\n    t = t + i", "zz = 5"],
    "func": ["a = 1000", "k = [1]", "def f(x):\n    k.append(x)\n    return len(k)", "r = f(a)", "w = [f(i) for i in range(2)]", "def f(x):\n    return x", "zz = 5"],
    "tup": ["a = 1000", "x, y = a, 2", "y, x = x, y", "z = [x, y]", "x, *y = z[0], 3, 4", "n = len(str(y))", "zz = 5"],
    "glob": ["a = 1000", "def g():\n    global h\n    h = a", "h = 1", "g()", "j = h + 1", "zz = 5"],
    "cls": ["a = 1000", "class Box:\n    n = 0\n    def __init__(self, v):\n        self.v = v\n    def bump(self, d):\n        self.v += d\n        return self", "o = Box(a)", "o.bump(a)", "o.bump(1).bump(2)", "q = [o.v, o]", "t = q[1].v", "zz = 5"],
    "nest": ["a = 1000", "l = [[1], [2]]", "l[0].append(a)", "x = l[1]", "x.append(7)", "s = l[0] + l[1]", "l[1] = [a]", "zz = 5"],
    "del": ["a = 1000", "x = [a]", "y = x", "del x", "x = y + [1]", "z = y[0]", "zz = 5"],
    "loop": ["a = 3", "acc = []", "for i in range(a):\n    acc.append(i * a)", "acc2 = [v for v in acc if v]", "while a > 1:\n    a -= 1", "b = a, len(acc)", "zz = 5"],
    "imp": ["import math", "a = 2.5", "b = math.floor(a)", "from math import ceil as c", "d = c(a) + b", "import math as mm\ne = mm.sqrt(d)", "zz = 5"],
    "deflt": ["a = 1000", "def f(x=a):\n    return x", "g = lambda y: f() + y", "r = g(a)", "b = f", "s = b(1)", "zz = 5"],
    "with": ["a = 1000", "import contextlib\n@contextlib.contextmanager\ndef cm(v):\n    yield [v]", "with cm(a) as w:\n    w.append(1)", "try:\n    x = w[5]\nexcept IndexError:\n    x = a", "y = (x, w)", "zz = 5"],
    "np": ["import numpy as np", "a = 3", "v = np.arange(a)", "v[0] = a", "w = v + 1", "t = float(w.sum())", "zz = 5"],
    "df": ["import pandas as pd", "a = 3", "d = pd.DataFrame({'x': [1, a]})", "d['y'] = d['x'] * a", "d['x'] = d['x'] + a", "t = int(d['x'].sum())", "zz = 5"],
}
