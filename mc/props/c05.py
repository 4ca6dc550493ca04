# -*- coding: utf-8 -*-
"""C05: in-place changes are noticed by everything that read what they change."""
import copy
import io

from common import Canon, RefSession, visible
from driver import Session, boot
from explore import forest

LEVEL = "model_checking"

# name -> (setup cells, [(reader expression, path read or None)], [(change, path stored to or None)])
# a path is given where the code reads / stores exactly that element or attribute
FAMILIES = {
    "list": (
        ["l = [[2, 1], [1, 0]]"],
        [("l[0][0] + 1", ("l", 0, 0)), ("len(l)", None), ("[v[0] for v in l]", None), ("l[1] + [5]", ("l", 1)), ("sum(l[1])", ("l", 1)), ("[0] + l[-1:]", None), ("sorted(l)[0] + [1]", None), ("l[0:1] + [3]", None)],
        [("l.reverse()", None), ("l.sort()", None), ("l.pop(0)", None), ("l.append([5, 4])", None), ("l.insert(0, [9, 8])", None), ("l[0].append(3)", None), ("l[0] = [7, 7]", None), ("l[0][0] = 8", ("l", 0, 0)), ("del l[0]", None), ("l += [[4]]", None), ("l[1].reverse()", None), ("l.extend([[6]])", None), ("l.remove([2, 1])", None), ("l[0], l[1] = [5, 6], [7, 8]", None), ("l[0][0] += 1", ("l", 0, 0)), ("l[1][0] = 3", ("l", 1, 0)), ("l *= 2", None), ("l.clear()", None), ("l[1] += [2]", None), ("l[0] = l[1]", None)],
    ),
    "dict": (
        ["d = {'a': {'b': 1}, 'c': {'b': 2}}"],
        [("d['a']['b'] + 1", ("d", "a", "b")), ("len(d)", None), ("sorted(d)", None), ("[v['b'] for v in d.values()]", None), ("d.get('a')['b'] * 3", None), ("'z' in d", None), ("sum(v['b'] for k, v in d.items())", None), ("d['c']['b'] * 2", ("d", "c", "b"))],
        [("d['a']['b'] = 5", ("d", "a", "b")), ("d['z'] = {'b': 6}", ("d", "z")), ("d.pop('c')", None), ("del d['c']", None), ("d.update(a={'b': 7})", None), ("d['a'].update(b=8)", None), ("d.setdefault('z', {'b': 3})", None), ("d['c'] = d['a']", None), ("d['a'].pop('q', 0)", None), ("d |= {'a': {'b': 9}}", None), ("d.clear()", None), ("d['a'] |= {'b': 4}", None), ("d['c']['b'] += 1", ("d", "c", "b")), ("d['a'] = {'b': 11}", ("d", "a"))],
    ),
    "object": (
        ["class B:\n    def put(self, v):\n        self.v = v\n    def twice(self):\n        return self.v * 2\no = B()\no.p = B()\no.p.v = 1\no.q = B()\no.q.v = 2\no.l = [1]"],
        [("o.p.v + 1", ("o", "p", "v")), ("o.l[0] * 2", ("o", "l", 0)), ("len(o.l)", None), ("o.q.v * 2", ("o", "q", "v")), ("[o.p.v, o.q.v]", None), ("getattr(o.p, 'v') + 0", None), ("dict(vars(o.p))", None), ("o.p.twice()", ("o", "p", "v"))],
        [("o.p.v = 5", ("o", "p", "v")), ("o.q.v = 6", ("o", "q", "v")), ("o.l.append(3)", None), ("o.l[0] = 4", ("o", "l", 0)), ("o.l = [7]", ("o", "l")), ("o.p.v += 1", ("o", "p", "v")), ("o.q = o.p", None), ("del o.l[0]", None), ("o.l.clear()", None), ("o.l += [3]", None), ("o.p.put(8)", None), ("o.w = 3", ("o", "w"))],
    ),
    "mixed": (
        ["class C: pass\nr = C()\nr.t = [{'k': [1]}, {'k': [2]}]\nw = {'x': r, 'n': 5}"],
        [("w['x'].t[0]['k'][0] + 1", ("w", "x", "t", 0, "k", 0)), ("len(r.t)", None), ("r.t[1]['k'] + []", ("w", "x", "t", 1, "k")), ("w['n'] + 1", ("w", "n")), ("[z['k'][0] for z in r.t]", None)],
        [("r.t[0]['k'][0] = 7", ("w", "x", "t", 0, "k", 0)), ("r.t[1]['k'].append(5)", None), ("r.t.append({'k': [9]})", None), ("w['x'].t[0]['k'] = [6]", ("w", "x", "t", 0, "k")), ("w['n'] = 8", ("w", "n")), ("r.t[0]['k'] += [3]", None), ("r.t.reverse()", None), ("r.t[0].update(k=[12])", None), ("del r.t[0]", None), ("r.t[1] = {'k': [14]}", ("w", "x", "t", 1))],
    ),
    "called": (
        ["def first(q):\n    q[0][0] = q[0][0] + 10\ndef grow(q):\n    q.append([50])\ndef deep(q):\n    def inner():\n        q[1].append(60)\n    inner()\ndef back(q):\n    return q[0]\ns = [[1], [2]]"],
        [("s[0][0] + 1", ("s", 0, 0)), ("len(s)", None), ("s[1] + [0]", ("s", 1)), ("back(s) + [1]", None)],
        [("first(s)", None), ("grow(s)", None), ("deep(s)", None), ("back(s).append(5)", None), ("back(s)[0] = 6", None), ("if s:\n    s[0][0] = 40", None), ("(lambda q: q)(s)[0][0] = 8", None), ("try:\n    s[9]\nexcept IndexError:\n    s[1].append(77)", None), ("while len(s) < 3:\n    s.append([3])", None), ("with open('/dev/null') as fh:\n    s[1][0] = 31", None)],
    ),
    # the same object under another name: whether the reader or the other name has to be re-run first is left open
    "list alias": (
        ["l = [[2, 1], [1, 0]]", "m = l[0]"],
        [("m[0] * 2", None), ("l[0][0] + 1", None), ("len(m)", None), ("[v[0] for v in l]", None)],
        [("m.append(4)", None), ("m[0] = 6", None), ("m += [2]", None), ("l[0].append(3)", None), ("l[0][0] = 8", None), ("m.reverse()", None), ("m[0] += 1", None), ("del m[0]", None), ("l[1] = [7, 7]", None), ("l.append(m)", None)],
    ),
    "dict alias": (
        ["d = {'a': {'b': 1}, 'c': {'b': 2}}", "e = d['a']"],
        [("e['b'] - 1", None), ("d['a']['b'] + 1", None), ("len(e)", None), ("[v['b'] for v in d.values()]", None)],
        [("e['b'] = 8", None), ("e.update(b=9)", None), ("e['b'] += 1", None), ("e['q'] = 5", None), ("d['a']['b'] = 5", None), ("d['a'].pop('q', None)", None), ("d['c'] = e", None)],
    ),
    "object alias": (
        ["class B:\n    def put(self, v):\n        self.v = v\no = B()\no.p = B()\no.p.v = 1\no.p.l = [1]", "p = o.p"],
        [("p.v + 5", None), ("o.p.v + 1", None), ("o.p.l[0] * 2", None), ("len(p.l)", None)],
        [("p.v = 7", None), ("p.put(9)", None), ("o.p.put(4)", None), ("p.l.append(3)", None), ("o.p.l[0] = 6", None), ("p.l += [5]", None), ("p.v -= 2", None)],
    ),
    "shared": (
        ["g = [1, 2]", "h = {'k': g}", "i = (g, h)"],
        [("h['k'][0] + 1", None), ("i[0][1] * 2", None), ("len(i[1]['k'])", None), ("g[0] - 1", None)],
        [("g[0] = 5", None), ("h['k'][1] = 6", None), ("i[0].append(7)", None), ("i[1]['k'].reverse()", None), ("g += [8]", None), ("h['k'] += [9]", None), ("g.insert(0, 3)", None)],
    ),
}
LOOSE = {"list alias", "dict alias", "object alias", "shared"}
# changes that make one part of the container depend on another
CROSS = {"first(s)", "l[0] = l[1]", "d['c'] = d['a']", "o.q = o.p"}


def disjoint(a, b):
    return a[:2] != b[:2]  # another element (attribute) of the same variable


def current(ns, expr):
    """value of the expression, evaluated on a copy of the variables"""
    keep = {k: v for k, v in visible(ns).items() if isinstance(v, (type, io.IOBase)) or callable(v)}
    ns2 = copy.deepcopy({k: v for k, v in visible(ns).items() if k not in keep})
    ns2.update(keep)
    ns2["__builtins__"] = __builtins__
    try:
        return Canon()(eval(expr, ns2))
    except Exception:
        return None


READER, USER = 50, 51


def spec(name, reader, depth):
    setup, _, changes = FAMILIES[name]
    expr, rpath = reader

    def make():
        s, r = Session(), RefSession()
        for i, c in enumerate(setup + ["y = " + expr, "print(y)"]):
            s.run(c, i + 1 if i < len(setup) else 50 + i - len(setup))
            r.run(c)
        return s, r, [current(r.ns, expr)]

    def step(state, hist, op, st):
        s, r, last = state
        code, cid = (("y = " + expr), READER) if op == len(changes) else (changes[op][0], 10 + op)
        res = s.run(code, cid)
        _, _, exc = r.run(code)
        h = hist + (op,)
        texts = ["y = " + expr] + [changes[k][0] if k < len(changes) else "y = " + expr for k in h]
        key = "%s|%r" % (name, texts)

        def fail(kind, what):
            st.violation("%s|%s" % (kind, key), "after %r: %s" % (texts, what), {"family": name, "cells": texts})
            return False

        if res.internal is not None:
            return fail("internal", "internal error %r" % (res.internal,))
        if exc is not None:
            return False
        if cid == READER:
            last[0] = current(r.ns, expr)
        now = current(r.ns, expr)
        v = s.check(last_executed_cell_id=cid)
        ready, waiting = set(v.ready_cells), set(v.waiting_cells)
        cross = name in LOOSE or any(k < len(changes) and changes[k][0] in CROSS for k in h)
        st.outcomes.add((now, READER in ready, USER in waiting))
        what = "%s was %s when the cell ran and is %s now; ready %s, waiting %s" % (expr, last[0], now, sorted(ready), sorted(waiting))
        if now is not None and now != last[0]:
            if READER not in ready and not (cross and READER in waiting):
                return fail("missed", what + ": not reported")
            if USER not in waiting:
                return fail("missed user", what + ": the cell that uses the result is not waiting")
        if cid == READER and not cross and (READER in ready | waiting or USER in waiting):
            return fail("own", what + ": reported although it just ran")
        if rpath is not None and not cross and all(k < len(changes) and changes[k][1] and disjoint(changes[k][1], rpath) for k in h):
            if READER in ready | waiting or USER in ready | waiting:
                return fail("imprecise", what + ": reported although only other elements were stored to")
        return True

    return dict(make=make, enabled=lambda h: range(len(changes) + 1), step=step, depth=depth, split=1)


def run(rep):
    boot()
    for name, (_, readers, _) in FAMILIES.items():
        if rep.part_enabled(name):
            rep.add(name, forest([spec(name, r, 3 if rep.thorough else 2) for r in readers]))
    rep.finish("every reader x every sequence of in-place changes (and re-runs of the reader) up to the depth, on nested lists, dicts and objects, through names, aliases, methods and functions; outcome = value that would be read, reported or not")
