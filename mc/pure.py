# -*- coding: utf-8 -*-
"""Notebooks whose cells only define variables of their own (every variable has
one defining cell, which stands before its readers): re-running everything from
the top is the reference for every reactive execution.  Each cell has variants
(edits) annotated with what they define and read (see stale.V)."""
from stale import V, calls


def D(code, name, *reads, free=None):
    return V(code, (name, reads, free))


def P(code, *reads):
    return V(code, (None, reads, None))


PURE = {
    "chain": [
        [D("a = 1000", "a"), D("a = 2000", "a")],
        [D("b = a + 1", "b", "a"), D("b = 7000", "b")],
        [D("c = a + b", "c", "a", "b"), D("c = b * 2", "c", "b")],
        [D("d = c - 3", "d", "c"), D("d = (c, a)", "d", "c", "a")],
        [P("print(d)", "d")],
    ],
    "diamond": [
        [D("a = 1000", "a"), D("a = 2000", "a")],
        [D("b = a + 1", "b", "a"), D("b = 9000", "b")],
        [D("c = a + 2", "c", "a")],
        [D("d = b + c", "d", "b", "c"), D("d = c + 4", "d", "c")],
        [D("e = d + b", "e", "d", "b"), D("e = d * 1", "e", "d")],
    ],
    "pairs": [
        [V("a, b = 1000, 2000", ("a", ()), ("b", ())), V("a = b = 3000", ("a", ()), ("b", ()))],
        [V("c, d = a + 1, b + 2", ("c", ("a",)), ("d", ("b",))), V("(c, d) = [b, a]", ("c", ("b",)), ("d", ("a",)))],
        [D("e = c * 2", "e", "c"), D("e = d * 2", "e", "d")],
        [D("f = [e, a]", "f", "e", "a")],
    ],
    "function": [
        [D("a = 1000", "a"), D("a = 1001", "a")],
        [D("def f(x):\n    return x + a", "f", free=("a",)), D("def f(x):\n    return x * 2", "f", free=())],
        [D("def g(y):\n    return f(y) + 1", "g", free=(calls("f"),)), D("g = lambda y: y", "g", free=())],
        [D("c = g(7)", "c", calls("g")), D("c = f(9)", "c", calls("f"))],
        [P("print(c)", "c")],
    ],
    "default": [
        [D("a = 1000", "a"), D("a = 1001", "a")],
        [D("def f(x=a):\n    return [x]", "f", "a", free=()), D("def f(x=3):\n    return [x, a]", "f", free=("a",))],
        [D("h = f", "h", "f", free=(calls("f"),))],
        [D("c = f()", "c", calls("f")), D("c = f(8)", "c", calls("f"))],
        [D("d = sum(c)", "d", "c")],
    ],
    "class": [
        [D("a = 1000", "a"), D("a = 1001", "a")],
        [D("class Box:\n    def __init__(self, v):\n        self.v = v", "Box"), D("class Box:\n    def __init__(self, v):\n        self.v = v * 2", "Box")],
        [D("o = Box(a)", "o", "Box", "a"), D("o = Box(5)", "o", "Box")],
        [D("p = o.v + 1", "p", "o"), D("p = o.v + a", "p", "o", "a")],
        [D("q = {'k': p}", "q", "p")],
    ],
    "container": [
        [D("a = 1000", "a"), D("a = 1001", "a")],
        [D("l = [a, 2, [a]]", "l", "a"), D("l = [7, a, [8]]", "l", "a")],
        [D("m = {'x': l, 'y': l[2]}", "m", "l")],
        [D("s = m['y'][0] + l[1]", "s", "m", "l"), D("s = sum(l[:2])", "s", "l")],
        [D("t = [i + s for i in l[2]]", "t", "s", "l"), D("t = f'{s}-{a}'", "t", "s", "a")],
    ],
    "flow": [
        [D("a = 5", "a"), D("a = -5", "a")],
        [D("if a > 0:\n    b = a\nelse:\n    b = -a * 100", "b", "a"), D("b = 0\nfor i in range(3):\n    b = b + a", "b", "a")],
        [D("try:\n    c = 1 // (b - 5)\nexcept ZeroDivisionError:\n    c = b", "c", "b")],
        [D("d = 1\nwhile d < abs(c) + 10:\n    d = d * 2 + 1", "d", "c"), D("d = [c for j in range(2)]", "d", "c")],
        [P("print(d, b)", "d", "b")],
    ],
    "imports": [
        [D("import math", "math"), D("import cmath as math", "math")],
        [D("a = 4.0", "a"), D("a = 9.0", "a")],
        [D("b = math.sqrt(a)", "b", "math", "a")],
        [D("c = str(b)", "c", "b"), D("c = [b, a]", "c", "b", "a")],
    ],
    "wide": [
        [D("a = 1000", "a"), D("a = 1001", "a")],
        [D("b = a + 1", "b", "a")],
        [D("x = 5000", "x"), D("x = 6000", "x")],
        [D("c = x + 1", "c", "x"), D("c = b + x", "c", "b", "x")],
        [D("y = x * 2", "y", "x"), D("y = 17000", "y")],
        [D("z = (c, y)", "z", "c", "y")],
    ],
}
