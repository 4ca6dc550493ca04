# -*- coding: utf-8 -*-
"""Reference model of staleness in an any-order notebook.

A notebook is a set of cells; the source of each cell is one of a few variants
with known data flow: a list of steps (target or None, names read, free names of
the function the step defines or None).  The model keeps, per global variable,
when it was last assigned and from what, and derives from that which cells may
not be run before another one (waiting) and which would compute something new
if they were re-run (ready).
"""


class V:
    """One cell variant."""

    def __init__(self, code, *steps):
        self.code = code
        self.steps = [(tuple(x) + (None,) * 3)[:3] for x in steps]

    def __repr__(self):
        return self.code.replace("\n", " ; ")


def calls(name):
    """read the function `name` and whatever its current definition reads"""
    return "()" + name


class Model:
    def __init__(self):
        self.ctr = 0
        self.ts = {}
        self.par = {}
        self.cell = {}
        self.last = {}
        self.free = {}  # function -> free names of its current definition

    def expand(self, reads, seen=()):
        out = []
        for r in reads:
            if r.startswith("()"):
                f = r[2:]
                out.append(f)
                if f not in seen:
                    out.extend(self.expand(self.free.get(f, ()), seen + (f,)))
            else:
                out.append(r)
        return tuple(dict.fromkeys(out))

    def live(self, v):
        live, dead = set(), set()
        local = {}
        for t, reads, free in v.steps:
            for r in reads:
                f = r[2:] if r.startswith("()") else None
                if f in local:
                    live |= {x for x in self.expand(local[f]) if x not in dead}
                else:
                    live |= {x for x in self.expand((r,)) if x not in dead}
            if t:
                dead.add(t)
                if free is not None:
                    local[t] = free
        return live

    def run(self, i, v):
        self.ctr += 1
        self.cell[i] = v
        self.last[i] = self.ctr
        for seq, (t, reads, free) in enumerate(v.steps):
            reads = self.expand(reads)
            if any(x not in self.ts for x in reads):
                return False
            if t:
                self.par[t] = reads
                self.ts[t] = (self.ctr, seq)
                self.free.pop(t, None)
                if free is not None:
                    self.free[t] = free
        return True

    def waiting(self, v):
        """some (transitive) ancestor was assigned after v was"""
        seen, todo = set(), list(self.par.get(v, ()))
        while todo:
            p = todo.pop()
            if p in seen or p not in self.ts:
                continue
            seen.add(p)
            if self.ts[p] > self.ts[v]:
                return True
            todo.extend(self.par.get(p, ()))
        return False

    def status(self):
        w, r = set(), set()
        for i, v in self.cell.items():
            live = self.live(v)
            if any(x not in self.ts for x in live) or any(self.waiting(x) for x in live):
                w.add(i)
            elif any(self.ts[x][0] > self.last[i] for x in live):
                r.add(i)
        return w, r


NOTEBOOKS = {
    "chain": {
        0: [V("a = 1000", ("a", ())), V("a = 2000", ("a", ()))],
        1: [V("b = a + 1", ("b", ("a",))), V("b = 7000", ("b", ()))],
        2: [V("c = a + b", ("c", ("a", "b"))), V("c = b * 2", ("c", ("b",)))],
        3: [V("print(c)", (None, ("c",))), V("d = c + 1\nprint(d + a)", ("d", ("c",)), (None, ("d", "a")))],
    },
    "diamond": {
        0: [V("a = 1000", ("a", ()))],
        1: [V("b = a + 1", ("b", ("a",)))],
        2: [V("c = a + 2", ("c", ("a",)))],
        3: [V("d = b + c", ("d", ("b", "c"))), V("d = 9000", ("d", ()))],
        4: [V("str(d)", (None, ("d",)))],
    },
    "pairs": {
        0: [V("a, b = 1000, 2000", ("a", ()), ("b", ())), V("a = b = 3000", ("a", ()), ("b", ()))],
        1: [V("c, d = a + 1, b + 2", ("c", ("a",)), ("d", ("b",)))],
        2: [V("e = c * 2", ("e", ("c",))), V("e = d * 2", ("e", ("d",)))],
        3: [V("str(e)", (None, ("e",))), V("b = 4000\nstr(e)", ("b", ()), (None, ("e",)))],
    },
    "function": {
        0: [V("a = 1000", ("a", ())), V("a = 1001", ("a", ()))],
        1: [V("def f():\n    return a + 1000", ("f", (), ("a",))), V("def f():\n    return 5000", ("f", (), ()))],
        2: [V("c = f()", ("c", (calls("f"),)))],
        3: [V("str(c)", (None, ("c",))), V("c = 7777", ("c", ()))],
    },
    "argument": {
        0: [V("a = 1000", ("a", ())), V("a = 1001", ("a", ()))],
        1: [V("def f(x):\n    return x + k", ("f", (), ("k",))), V("def f(x):\n    return x * 2", ("f", (), ()))],
        2: [V("k = 300", ("k", ()))],
        3: [V("c = f(a)", ("c", ("a", calls("f")))), V("c = f(500)", ("c", (calls("f"),)))],
        4: [V("str(c)", (None, ("c",)))],
    },
    "local": {
        0: [V("a = 1000", ("a", ())), V("a = 1001", ("a", ()))],
        1: [V("t = a + 1\nb = t * 2", ("t", ("a",)), ("b", ("t",))), V("def g():\n    return a\nb = g() + 5", ("g", (), ("a",)), ("b", (calls("g"),)))],
        2: [V("c = b + 1", ("c", ("b",))), V("t = 50\nc = t + 1", ("t", ()), ("c", ("t",)))],
        3: [V("str(c)", (None, ("c",)))],
    },
    "branch": {
        0: [V("a = 1000", ("a", ())), V("a = 1001", ("a", ()))],
        1: [V("if a:\n    b = a + 1\nelse:\n    b = 0", ("b", ("a",))), V("b = 0\nfor i in range(3):\n    b = b + a", ("b", ("a",)))],
        2: [V("c = [b, 1]", ("c", ("b",))), V("c = {'k': b}", ("c", ("b",)))],
        3: [V("str(c)", (None, ("c",)))],
    },
}
