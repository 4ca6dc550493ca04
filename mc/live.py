# -*- coding: utf-8 -*-
"""Which of the variables a, b, i (set by other cells) does a cell read?
The reference runs the cell in plain Python and sees which of the original
objects are looked up by name, on every path through the cell."""
import ast
import asyncio
import builtins
import contextlib
import io
import itertools
import re
import sys

VARS = ("a", "b", "i")

# every statement works on lists, whatever came before it
STMTS = [
    "x = a + [1]",
    "a = [9]",
    "b = a + [1]",
    "a = a + b",
    "a += [5]",
    "i = [8]",
    "x = [a for a in b]",
    "x = [i for i in a]",
    "x = [i for a in b for i in [a]]",
    "x = [a for i in b if i]",
    "x = {i: b for i in a}",
    "x = {i for i in b}",
    "x = list(i for i in a)",
    "x = [(y := i) for i in a]",
    "x = [(i := y) for y in a]",
    "x = [(i := a)]",
    "for i in a:\n    x = i",
    "for a in b:\n    x = a\nelse:\n    x = i + [1]",
    "for y in a:\n    i = [y]",
    "while a:\n    x = b + [1]\n    break",
    "if a:\n    b = [1]",
    "if a:\n    x = b + [1]\nelse:\n    x = i + [1]",
    "if [1]:\n    i = [1]\nelse:\n    i = [2]",
    "x = len(b if a else i)",
    "x = len(a and b)",
    "x = (lambda a: a + [1])(b)",
    "x = (lambda y: a + [1])(b)",
    "x = (lambda y=a: y + [1])()",
    "def f(a):\n    return a + [1]\nx = f(b)",
    "def f(y):\n    return a + y\nx = f(b)",
    "def f(y):\n    return a + y",
    "def f(y=a):\n    return i + y",
    "def f():\n    a = [1]\n    return a + a\nx = f()",
    "def f():\n    global a\n    a = [4]\nf()",
    "def f():\n    j = [1]\n    def g():\n        nonlocal j\n        j = b + j\n        return j\n    return g()\nx = f()",
    "def f(*a, **i):\n    return (a, i)\nx = f(b, y=[1])",
    "def f(y):\n    return [y]\nx = f(y=a)",
    "def f(a=b):\n    return a + [1]\nx = f(a=i)",
    "class K:\n    a = b + [1]\n    x = a",
    "class K:\n    i = [1]\nx = K.i",
    "try:\n    x = a + [1]\nfinally:\n    x = i + [1]",
    "try:\n    raise ValueError\nexcept ValueError as a:\n    x = b + [1]",
    "try:\n    x = [][1]\nexcept IndexError:\n    i = [3]",
    "try:\n    x = [5][0]\nexcept IndexError:\n    i = [3]",
    "try:\n    i = [3]\nexcept IndexError:\n    x = [1]\nelse:\n    x = i",
    "import contextlib\nwith contextlib.nullcontext(a) as i:\n    x = i + [1]",
    "a, b = b + [1], a + [1]",
    "i, *x = [1, 2]",
    "a = i = [7]",
    "a = i + [1]; i = b + [1]",
    "import math as a",
    "from math import pi as i",
    "del a",
    "del a\na = [1]",
    "x = f'{a}{[i for i in b]}'",
    "x = 'a'",
    "x = dict(a=b)",
    "x = len(a) < len(b) < 9",
    "assert a is not None",
    "x: list = b + [1]",
    "match b:\n    case [a]:\n        x = a\n    case i:\n        x = i + [1]",
    "x = [len(b) for y in a for b in [[y]]]",
    "match a:\n    case [1, 7]:\n        x = b + [1]\n    case [_, _]:\n        i = [2]\n    case _:\n        i = b + [1]",
    "match a:\n    case [1, *b] if i:\n        x = b + [1]\n    case _:\n        b = [2]",
    "try:\n    i = [1]\nexcept IndexError:\n    raise\nfinally:\n    b = [4]",
    "x = [*a, *b]",
    "x = dict(**{'i': i})",
    "x = a[0:]",
    "x = [1, 2][len(a):]",
    "a.append(1)",
    "x = [y for y in [1] for z in a]",
    "print(i)",
    "def f():\n    yield a\nx = list(f())",
    "async def f():\n    return b + [1]\nx = await f()",
]
# statements that the others are combined with
CORE = [STMTS[i] for i, s in enumerate(STMTS) if s in {
    "a = [9]", "i = [8]", "x = [a for a in b]", "for i in a:\n    x = i", "def f(y):\n    return a + y\nx = f(b)", "def f(y):\n    return a + y",
    "if a:\n    b = [1]", "x = [(i := a)]", "a, b = b + [1], a + [1]", "x = [(i := y) for y in a]", "def f():\n    global a\n    a = [4]\nf()", "a += [5]", "print(i)", "x = len(b if a else i)"}]


class Names(dict):
    """globals of the cell"""

    def __getitem__(self, k):
        v = dict.__getitem__(self, k)
        if k in VARS:
            if v is self.base[k]:
                self.live.add(k)
            elif sys._getframe(1).f_code.co_name not in ("<module>", "<genexpr>"):
                # whether the cell has assigned it before it calls the function is not looked into
                self.unclear.add(k)
        return v


class Choices(ast.NodeTransformer):
    """every condition may hold or not, every loop may have iterations or none"""

    def wrap(self, name, x):
        return ast.copy_location(ast.Call(ast.Name(name, ast.Load()), [x], []), x)

    def visit_cond(self, node):
        self.generic_visit(node)
        node.test = self.wrap("__cond__", node.test)
        return node

    visit_If = visit_While = visit_IfExp = visit_cond

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        node.values[:-1] = [self.wrap("__cond__", v) for v in node.values[:-1]]
        return node

    def visit_loop(self, node):
        self.generic_visit(node)
        node.iter = self.wrap("__iter__", node.iter)
        if hasattr(node, "ifs"):
            node.ifs = [self.wrap("__cond__", v) for v in node.ifs]
        return node

    visit_For = visit_comprehension = visit_loop


def run(code, choices=None):
    """(names of the original values that are read, those the rest is unclear
    of, exception, number of choices made)"""
    ns = Names({n: [1, 2] for n in VARS})
    ns.base, ns.live, ns.unclear = dict(ns), set(), set()
    made = [0]

    class Body(dict):  # of a class
        def __missing__(self, k):
            return ns[k]

    class Meta(type):
        @classmethod
        def __prepare__(cls, *a, **kw):
            return Body()

        def __new__(cls, name, bases, body):
            return type.__new__(type, name, bases, dict(body))

    def build_class(f, name, *bases, **kw):
        return builtins.__build_class__(f, name, *bases, metaclass=Meta, **kw)

    def cond(v):
        if choices is None:
            return v
        made[0] += 1
        i = made[0] - 1
        return v if i >= len(choices) else choices[i]

    def it(v):
        return v if choices is None or cond(True) else []

    extra = dict(vars(builtins), __build_class__=build_class, __cond__=cond, __iter__=it)
    dict.update(ns, __builtins__=extra, __name__="__main__")
    tree = ast.parse(code, "<live>")
    if choices is not None:
        tree = ast.fix_missing_locations(Choices().visit(tree))
    err = None
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            co = compile(tree, "<live>", "exec", flags=ast.PyCF_ALLOW_TOP_LEVEL_AWAIT)
            if co.co_flags & 0x80:
                asyncio.new_event_loop().run_until_complete(eval(co, ns))
            else:
                exec(co, ns)
        except Exception as e:
            err = e
    return ns.live, ns.unclear, err, made[0]


def reads(code):
    """(read for sure, possibly read), or None if the cell raises"""
    sure, unclear, err, _ = run(code)
    if err is not None:
        return None
    maybe = sure | unclear | {n for n in VARS if "global " + n in code}
    if re.search(r"^(try:|match )", code, re.M):
        return sure, set(VARS)  # which handler or case is taken is not explored
    n = run(code, ())[3]
    for bits in itertools.product((False, True), repeat=min(n + 2, 7)):
        live, unclear, _, _ = run(code, bits)
        maybe |= live | unclear
    return sure, maybe


def programs(thorough):
    def join(*ss):
        # functions and classes keep their names apart
        return "\n".join(re.sub(r"\b([fK])\b(?!')", r"\g<1>%d" % k, s) for k, s in enumerate(ss))

    for s in STMTS:
        yield s
    for s1 in STMTS:
        for s2 in STMTS:
            if thorough or s1 in CORE or s2 in CORE:
                yield join(s1, s2)
    for s in STMTS:  # is a name that was bound before, or not, still so afterwards?
        for v in VARS:
            if re.search(r"\b%s\b" % v, s):
                yield join("%s = [8]" % v, s, "w = %s + [1]" % v)
                yield join(s, "w = %s + [1]" % v)
    if thorough:
        for ss in itertools.product(CORE, repeat=3):
            yield join(*ss)
