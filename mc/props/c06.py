# -*- coding: utf-8 -*-
"""C06: %%memoize is indistinguishable from re-execution, and does skip it."""
from common import RefSession, norm, snapshot, split_display
from driver import Session, boot
from explore import forest

LEVEL = "model_checking"

# inputs: (setup, alternative definitions / mutations of x, whether ipyflow says
# it can compare values of the type)
INPUTS = {
    "int": ("", ["x = 1", "x = 2"], True),
    "numbers": ("", ["x = 1", "x = True", "x = 1.0"], True),
    "zero": ("", ["x = 0.0", "x = -0.0"], True),
    "str": ("", ["x = 'a'", "x = 'b'"], True),
    "bytes": ("", ["x = b'a'", "x = bytearray(b'a')", "x = 'a'"], True),
    "list": ("", ["x = [1, 2]", "x = [1, 2, 3]", "x.append(3)"], True),
    "seq": ("", ["x = [1, 2]", "x = (1, 2)"], True),
    "nested": ("", ["x = [[1], [2]]", "x = [[1], [2, 3]]", "x[1].append(3)"], True),
    "dict": ("", ["x = {'a': 1, 'b': 2}", "x = {'b': 2, 'a': 1}", "x['b'] = 3"], True),
    "dictpairs": ("", ["x = {'a': 1}", "x = [('a', 1)]", "x = [['a', 1]]"], True),
    "keys": ("", ["x = {'a': 1, 2: 3}", "x = {'a': 1, 2: 4}"], True),
    "set": ("", ["x = {1, 2}", "x = {2, 3}", "x.add(3)"], True),
    "frozen": ("", ["x = {1, 2}", "x = frozenset([1, 2])"], True),
    "array": ("import numpy as np", ["x = np.array([1, 2])", "x = np.array([[1, 2]])", "x = np.array([1, 3])"], True),
    "broadcast": ("import numpy as np", ["x = np.array([1, 1])", "x = np.array([1])", "x = np.array([1.0, 1.0])"], True),
    "scalar": ("import numpy as np", ["x = np.int64(1)", "x = np.float64(1)", "x = 1"], True),
    "arrays": ("import numpy as np", ["x = [np.array([1])]", "x = [np.array([1]), np.array([2])]", "x = []"], True),
    "frame": ("import pandas as pd", ["x = pd.DataFrame({'a': [1, 2]})", "x = pd.DataFrame({'b': [1, 2]})", "x = pd.DataFrame({'a': [1, 3]})"], True),
    "inplace": ("import numpy as np", ["x = np.array([1, 2])", "x[0] = 5", "x[0] = 1"], True),
    "function": ("g = 3", ["def x(): return 1", "def x(): return 2", "def x(): return g"], True),
    "closure": ("def mk(n):\n    def inner(): return n\n    return inner", ["x = mk(1)", "x = mk(2)"], False),
    "global": ("def x(): return g", ["g = 1", "g = 2"], True),
    "lambda": ("", ["x = lambda: 1", "x = lambda: 2"], False),
    "default": ("", ["d = 1\ndef x(a=d): return a", "d = 2\ndef x(a=d): return a"], True),
    "class": ("", ["class x:\n    v = 1\n    def __repr__(self): return 'one'", "class x:\n    v = 2\n    def __repr__(self): return 'two'"], True),
    "object": ("class B:\n    def __repr__(self): return 'B(%r)' % self.v\nx = B()", ["x.v = 1", "x.v = 2"], False),
    "none": ("", ["x = None", "x = ...", "x = 1"], False),
    "alias": ("z = [1]", ["x = z", "x = [1]", "z.append(2)"], True),
}
# what the memoized cell does with x
USE = {
    "function": "x()", "closure": "x()", "global": "x()", "lambda": "x()", "default": "x()",
    "class": "[x.v, repr(x())]",
    "array": "x.tolist()", "broadcast": "str(x.dtype) + str(x.tolist())", "scalar": "str(type(x))", "arrays": "[v.tolist() for v in x]",
    "frame": "str(x.to_dict())", "inplace": "x.tolist()",
    "dict": "[k + str(v) for k, v in x.items()]",
}
BODIES = {
    "assign": "y = %s",
    "display": "y = %s\n[y]",
    "print": "print(%s)\ny = [x if isinstance(x, int) else 0]\nw = %s",
}

# other histories: alphabets of cells; '*' marks the memoized one
SCENARIOS = {
    "output mutated": ["x = 1", "x = 2", "*y = [x]", "y.append(9)"],
    "nested output mutated": ["x = 1", "*y = {'k': [x]}", "y['k'].append(9)"],
    "output object mutated": ["class B: pass\nx = 1", "*y = B()\ny.v = x", "y.v = 9"],
    "output overwritten": ["x = 1", "x = 2", "*y = str(x)", "y = 77"],
    "output deleted": ["x = 1", "*y = str(x)", "if 'y' in globals(): del y"],
    "input changed by the cell": ["x = [1]", "*x.append(len(x))\ny = list(x)"],
    "counter": ["n = 0", "*n = n + 1"],
    "augmented": ["n = 0", "*n += 1"],
    "chain": ["x = 1", "x = 2", "*y = x + 1", "z = y * 2"],
    "two inputs": ["x = 1", "x = 2", "c = 1", "*y = x + c"],
    "condition": ["x = 1\nz = 5", "z = 6", "c = 0", "c = 1", "*y = x if c else z"],
    "function defined": ["x = 1", "x = 2", "*def h():\n    return x", "y = h()"],
    "function with default": ["x = 1", "x = 2", "*def h(v=x):\n    return v", "y = h()"],
    "raises": ["x = 0", "x = 2", "*y = 1 // x"],
    "raises late": ["x = 0", "x = 2", "*y = [x]\ny2 = 1 // x"],
    "call chain": ["def f(v): return v + g", "g = 1", "g = 2", "*y = f(1)"],
    "functions": ["def f(v): return h(v)", "def h(v): return v", "def h(v): return v * 2", "*y = f(3)"],
    "method": ["class B:\n    def m(self): return 1\no = B()", "class B:\n    def m(self): return 2\no = B()", "*y = o.m()"],
    "attribute": ["class B: pass\no = B()\no.v = 1", "o.v = 2", "o.v = 1", "*y = str(o.v)"],
    "element": ["l = [1, 2]", "l[0] = 5", "l[0] = 1", "*y = str(l[0])"],
    "other element": ["l = [[1], [2]]", "l[1].append(3)", "*y = l[0] + l[-1]"],
    "loop": ["x = 2", "x = 3", "*y = []\nfor i in range(x):\n    y.append(i)"],
    "comprehension": ["x = [1]", "x = [1, 2]", "k = 3", "k = 4", "*y = [i * k for i in x]"],
    "edit": ["x = 1", "x = 2", "*y = x + 1", "*y = x + 2"],
    "import": ["import math as m", "import cmath as m", "*y = str(m.sqrt(4))"],
    "global stmt": ["x = 1", "x = 2", "def f():\n    global y\n    y = x", "*f()"],
    "swap": ["a, b = 1, 2", "*a, b = b, a"],
    "identity": ["x = [1]", "*y = x", "y.append(2)"],
    "identity2": ["x = [1]", "*y = [x]", "x.append(2)"],
}


# scenarios with listed findings (identified as a whole, whatever the history)
COARSE = {"output object mutated", "identity", "identity2"}


def memo(code, flag):
    return "%%memoize" + flag + "\n" + code


def spec(name, ops, depth, flags, supported, split=0):
    """ops: (cell id, source, memoized?)"""
    alphabet = [(k, f) for k, (i, c, m) in enumerate(ops) for f in (flags if m else ("",))]

    def make():
        s, r = Session(), RefSession()
        return s, r, {}

    def step(state, hist, op, st):
        s, r, seen = state
        k, flag = op
        i, code, m = ops[k]
        before = {n: norm(v) for n, v in snapshot(r.ns).items()}
        res = s.run(memo(code, flag) if m else code, i)
        out, shown, exc = r.run(code)
        h = hist + (op,)

        def fail(kind, what):
            st.violation("%s|%s" % (name, kind) if name in COARSE else "%s|%s|%r" % (name, kind, h), "after %r: %s" % ([("%%memoize" + f + " " if ops[a][2] else "") + ops[a][1] for a, f in h], what), {"case": name, "ops": [(ops[a], f) for a, f in h]})
            return False

        if res.internal is not None:
            return fail("internal", "internal error %r" % (res.internal,))
        if (res.error is None) != (exc is None):
            return fail("error", "raised %r, plain Python %r" % (res.error, exc))
        want = {n: norm(v) for n, v in snapshot(r.ns).items()}
        got = {n: norm(v) for n, v in snapshot(s.ns).items()}
        skipped = m and s.cells().current_cell().skipped_due_to_memoization_ctr > 0
        diff = {n: (got.get(n), want.get(n)) for n in set(got) | set(want) if got.get(n) != want.get(n)}
        if diff:
            return fail("values", "%s; (has, plain Python has) %s" % ("skipped" if skipped else "executed", diff))
        printed, display = split_display(res.stdout)
        if skipped:
            st.bump("skipped")
            printed = printed.split("reusing memoized result...", 1)[-1].replace("\x1b[0m", "").lstrip("\n")
            if flag == " --verbose":
                # without a kernel what was displayed is also part of stdout
                printed = split_display(printed)[0]
        if exc is None:
            wshown = None if skipped and flag == " --quiet" else shown
            if norm(display) != norm(wshown):
                return fail("display", "%s; displayed %r, plain Python %r" % ("skipped" if skipped else "executed", display, shown))
            wout = out if not skipped or flag == " --verbose" else ""
            if printed.strip() != wout.strip():
                return fail("output", "%s; printed %r, plain Python %r" % ("skipped" if skipped else "executed", printed, out))
        if m and exc is None:
            key = (code, tuple(sorted(before.items())))
            if supported and not skipped and key in seen:
                return fail("not skipped", "executed again although everything is as it was at execution %d" % seen[key])
            seen[key] = s.cells().exec_counter()
        st.outcomes.add((skipped, repr(sorted(want.items()))))
        return True

    return dict(make=make, enabled=lambda h: alphabet, step=step, depth=depth, split=split)


def with_setup(spec_, setup):
    if not setup:
        return spec_
    mk = spec_["make"]

    def make():
        s, r, seen = mk()
        s.run(setup, 99)
        r.run(setup)
        return s, r, seen

    return dict(spec_, make=make)


def run(rep):
    boot()
    th = rep.thorough
    if rep.part_enabled("inputs"):
        trees = []
        for name, (setup, defs, supported) in INPUTS.items():
            for b, body in BODIES.items():
                if b != "assign" and not th and name not in ("int", "list", "dict"):
                    continue
                use = USE.get(name, "repr(x)")
                ops = [(0, d, False) for d in defs] + [(1, body % ((use,) * body.count("%s")), True)]
                # a definition comes first
                t = with_setup(spec("%s/%s" % (name, b), ops, (5 if th else 4) if b == "assign" else (4 if th else 3), ("",) if b == "assign" else ("", " --verbose", " --quiet"), supported), setup)
                trees.append(t)
        rep.add("inputs", forest(trees))
    if rep.part_enabled("scenarios"):
        trees = []
        for name, cells in SCENARIOS.items():
            ops = [(0 if not c.startswith("*") else 1, c.lstrip("*"), c.startswith("*")) for c in cells]
            # each plain cell has a cell of its own
            ops = [(k + 2 if not m else i, c, m) for k, (i, c, m) in enumerate(ops)]
            trees.append(spec(name, ops, 6 if th else 4, ("",), False))
        rep.add("scenarios", forest(trees))
    rep.finish("every sequence up to the depth of (re)defining the inputs, mutating them and running the memoized cell, for every input type and scenario, compared with plain Python after every step; outcome = skipped / namespace")
