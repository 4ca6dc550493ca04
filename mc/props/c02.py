# -*- coding: utf-8 -*-
"""C02: slices, re-executed in a fresh namespace, reproduce the values."""
import ast
import asyncio
import contextlib
import copy
import io
import types

from common import norm
from constructs import READS
from driver import Session, boot
from explore import pmap, tree
from mutations import KNOWN, MUTATIONS
from notebooks import RICH
from stale import NOTEBOOKS, V

LEVEL = "model_checking"
FLOWS = ("any_order", "in_order")


def run_slice(text):
    ns = {"__name__": "__main__"}
    with contextlib.redirect_stdout(io.StringIO()):
        co = compile(text, "<slice>", "exec", flags=ast.PyCF_ALLOW_TOP_LEVEL_AWAIT)
        if co.co_flags & 0x80:
            asyncio.new_event_loop().run_until_complete(eval(co, ns))
        else:
            exec(co, ns)
    return ns


def same(a, b, depth=0):
    if depth > 8:
        return True
    if type(a).__name__ != type(b).__name__:
        return False
    if type(a).__module__.startswith("numpy"):
        return bool((a == b).all())
    if type(a).__module__.startswith("pandas"):
        return a.equals(b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, depth + 1) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k], depth + 1) for k in a)
    if isinstance(a, (types.FunctionType, types.ModuleType, type)):
        return True
    if isinstance(a, str):
        return norm(a) == norm(b)
    if hasattr(a, "__dict__"):
        return same(vars(a), vars(b), depth + 1)
    return a == b


def data(ns):
    return {
        n: v
        for n, v in ns.items()
        if not n.startswith("_") and n not in ("In", "Out", "get_ipython", "exit", "quit", "open")
        and not callable(v) and not isinstance(v, types.ModuleType)
    }


def targets(code):
    """what the cell assigns at module level: names, elements, attributes"""
    out = []

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            return
        if isinstance(n, (ast.Name, ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
            out.append(ast.unparse(n))
        for c in ast.iter_child_nodes(n):
            visit(c)

    visit(ast.parse(code))
    return dict.fromkeys(out)


def evaluate(exprs, ns):
    out = {}
    for e in exprs:
        if e.startswith("_"):
            continue
        try:
            v = eval(e, ns)
        except Exception:
            continue
        if not callable(v) and not isinstance(v, types.ModuleType):
            out[e] = v
    return out


def snap(code, ns):
    return copy.deepcopy(evaluate(targets(code), ns))


def unequal(text, want):
    """why the slice does not reproduce `want`"""
    try:
        ns = run_slice(text)
    except Exception as e:
        return "raises %r" % e
    got = evaluate(want, ns)
    for n, v in want.items():
        if n not in got:
            return "%s is not defined" % n
        if not same(got[n], v):
            return "%s is %r, not %r" % (n, got[n], v)


def check_vars(s, st, fail, unrelated=(), only=None):
    for n, v in data(s.ns).items():
        if only and n not in only:
            continue
        sym = s.sym(n)
        if sym is None:
            fail("sym:" + n, "variable %s is not tracked" % n)
            continue
        t = str(sym.code(format_type=str))
        st.bump("slices")
        why = unequal(t, {n: v})
        if why:
            fail("var:" + n, "slice of %s %r: %s" % (n, t, why))
        for u in unrelated:
            if u in t and n not in u:
                fail("prec:" + n, "slice of %s contains unrelated %r: %r" % (n, u, t))


def check_cells(s, st, snaps, fail, unrelated=(), levels=(False, True)):
    """slices of every execution so far, cell level and statement level"""
    for ctr, (code, want) in snaps.items():
        for stmts in levels:
            t = str(s.cells().at_timestamp(ctr).slice(format_type=str, stmts=stmts))
            st.bump("slices")
            why = unequal(t, want)
            if why:
                fail("cell:%d" % stmts, "%s slice of execution %d (%r) %r: %s" % ("statement" if stmts else "cell", ctr, code, t, why))
            for u in unrelated:
                if u in t and u != code:
                    fail("prec:cell%d" % stmts, "slice of execution %d (%r) contains unrelated %r" % (ctr, code, u))


SETTINGS = {"both": (True, True), "dynamic": (True, False)}


def session(flow, mode):
    s = Session(flow_direction=flow)
    dyn, sta = SETTINGS[mode]
    s.flow.mut_settings.dynamic_slicing_enabled = dyn
    s.flow.mut_settings.static_slicing_enabled = sta
    return s


def construct_case(case, st):
    c, flow, mode = case
    s = session(flow, mode)
    todo = [(9, c.pre)] if c.pre else []
    todo += [(7, "zz = 5"), (0, "a = 2000"), (1, c.code), (0, "a = 2001"), (8, "yy = 6"), (1, c.code), (2, "u = str(r)")]
    snaps = {}
    for k, (i, code) in enumerate(todo):
        r = s.run(code, i)
        st.transitions += 1
        if r.error is not None:
            st.violation("error:%s" % c.name, "cell %r raised %r" % (code, r.error), None)
            return
        snaps[s.cells().exec_counter()] = (code, snap(code, s.ns))
        if i not in (1, 2):
            continue
        st.states += 1

        def fail(kind, what):
            # the tracer binds the loop variable after the loop: its first
            # iteration still sees the variable of the previous run
            st.violation("loop variable" if c.name == "forappend" and kind.startswith("prec") else "%s|%s|%s|%s" % (c.name, flow, mode, kind), what, {"construct": c.name, "flow": flow, "mode": mode, "step": k})

        check_vars(s, st, fail, ["zz = 5", "yy = 6"] + (["a = 2000"] if k > 4 else []))
        check_cells(s, st, snaps, fail, ["zz = 5"])
        st.outcomes.add(str(s.sym("r").code(format_type=str)))


def mutation_case(case, st):
    name, cells, flow, mode = case
    s = session(flow, mode)
    snaps = {}
    for i, code in enumerate(cells):
        r = s.run(code, i)
        st.transitions += 1
        if r.error is not None:
            st.violation("error:%r" % cells, "cell %r raised %r" % (code, r.error), None)
            return
        snaps[s.cells().exec_counter()] = (code, {})
    st.states += 1
    var = cells[-1].split(" ")[0]
    snaps[s.cells().exec_counter()] = (cells[-1], snap(cells[-1], s.ns))
    fails = []
    check_vars(s, st, lambda kind, what: fails.append((kind, what)), only=(var,))
    check_cells(s, st, snaps, lambda kind, what: fails.append((kind, what)))
    for kind, what in fails:
        st.violation("history: " + name if name else "%r|%s|%s|%s" % (cells, flow, mode, kind), what, {"cells": cells, "flow": flow, "mode": mode})
    st.outcomes.add(str(s.sym(var).code(format_type=str)))


def rich_part(rep, name, depth, flow, mode, prelude=False):
    nb = RICH[name]
    ops = list(range(len(nb)))

    def make():
        s = session(flow, mode)
        snaps = {}
        if prelude:
            for i in ops:
                s.run(nb[i], i)
                snaps[s.cells().exec_counter()] = (nb[i], snap(nb[i], s.ns))
        return s, snaps

    def step(state, hist, op, st):
        s, snaps = state
        r = s.run(nb[op], op)
        if r.error is not None:
            st.bump("raising")
            return False
        snaps[s.cells().exec_counter()] = (nb[op], snap(nb[op], s.ns))
        h = hist + (op,)

        def fail(kind, what):
            st.violation("%s|%s|%s|%r|%s" % (name, flow, mode, h, kind), "after running %s: %s" % ([nb[i] for i in h], what), {"notebook": name, "ops": list(h), "flow": flow, "mode": mode, "prelude": prelude})

        check_vars(s, st, fail, ["zz = 5"])
        # at cell granularity a re-run cell that reads its own earlier output
        # (or a cycle of cells) is collapsed by design
        rerun = prelude or len(set(h)) < len(h)
        check_cells(s, st, snaps, fail, ["zz = 5"], (True,) if rerun else (False, True))
        st.outcomes.add(repr(sorted(data(s.ns))))
        return True

    st = tree(make, lambda h: ops, step, depth, split=2)
    rep.add("%s %s %s%s depth %d" % (name, flow, mode, " after run-all" if prelude else "", depth), st)


def exact_part(rep, name, depth):
    """cell slices of scalar notebooks are exactly the executions that flow in"""
    nb = NOTEBOOKS[name]
    ops = [(i, v) for i in nb for v in range(len(nb[i]))]

    def make():
        s = Session()
        return s, {}, {}, {}, {}  # var -> exec, free names per function, exec -> needed execs

    def expand(reads, free, seen=()):
        for r in reads:
            if r.startswith("()"):
                yield r[2:]
                if r not in seen:
                    yield from expand(free.get(r[2:], ()), free, seen + (r,))
            else:
                yield r

    def step(state, hist, op, st):
        s, last, free, need, cell_of = state
        i, k = op
        var = nb[i][k]
        r = s.run(var.code, i)
        if r.error is not None:
            return False
        ctr = s.cells().exec_counter()
        mine = {ctr}
        cell_of[ctr] = i
        for t, reads, fr in var.steps:
            for x in expand(reads, free):
                if last[x] != ctr and cell_of[last[x]] == i:
                    return False  # reads its own earlier output: collapsed by design
                mine |= need.get(last[x], {ctr}) if last[x] != ctr else set()
            if t:
                last[t] = ctr
                free.pop(t, None)
                if fr is not None:
                    free[t] = fr
        need[ctr] = mine
        for c, want in need.items():
            got = set(s.cells().at_timestamp(c).make_cell_dict_slice())
            st.bump("slices")
            if got != want:
                h = hist + (op,)
                st.violation("exact %s|%r|%d" % (name, h, c), "after %s: slice of execution %d is executions %s, expected %s" % ([repr(nb[a][b]) for a, b in h], c, sorted(got), sorted(want)), {"notebook": name, "ops": list(h)})
                return False
        st.outcomes.add(repr(sorted(map(sorted, need.values()))))
        return True

    st = tree(make, lambda h: ops, step, depth, split=2)
    rep.add("exact %s depth %d" % (name, depth), st)


VERSIONS = {
    "scalar": ("x", "x = 1; y = 10", ["x = %d", "x += %d", "for x in range(%d): pass", "x, z = %d, 5", "y = x + %d", "x = y * %d"]),
    "dict": ("d", "d = {'a': [1], 'b': 2}; y = 3", ["d['b'] = %d", "d['a'].append(%d)", "d['a'][0] = %d", "d['n%d'] = y", "y = %d"]),
    "list": ("l", "l = [1, [2]]; y = 3", ["l.append(%d)", "l[0] = %d", "l[1].append(%d)", "l[1][0] = %d + y", "y = %d", "l.extend([%d, y])"]),
    "object": ("o", "class A: pass\no = A()\no.v = 1\no.w = [1]\ny = 3", ["o.v = %d", "o.w.append(%d)", "o.w[0] = %d + y", "y = %d", "o.z%d = y"]),
}


def versions_part(rep, name, depth):
    """every earlier version of a variable that was not rebound to another container"""
    var, pre, ops = VERSIONS[name]

    def make():
        s = Session()
        s.run(pre, 0)
        return s, [copy.deepcopy(s.ns[var])]

    def step(state, hist, op, st):
        s, values = state
        h = hist + (op,)
        cells = [pre] + [ops[o] % (100 + i) for i, o in enumerate(h)]
        s.run(cells[-1], len(h))
        if not same(s.ns[var], values[-1]):
            values.append(copy.deepcopy(s.ns[var]))
        sym, got, v = s.sym(var), [], -1
        while True:
            try:
                text = str(sym.code(format_type=str, version=v))
            except IndexError:
                break
            st.bump("slices")
            try:
                got.insert(0, run_slice(text).get(var, "undefined"))
            except Exception as e:
                got.insert(0, repr(e))
            v -= 1
        dedup = [x for i, x in enumerate(got) if i == 0 or not same(x, got[i - 1])]
        # values within the first cell are versions, too
        if len(dedup) < len(values) or not all(same(a, b) for a, b in zip(values, dedup[-len(values):])):
            st.violation("versions %s|%r" % (name, h), "versions of %s after %r give %r, but it had %r" % (var, cells, dedup, values), {"cells": cells, "var": var})
            return False
        st.outcomes.add(repr(len(dedup)))
        return True

    st = tree(make, lambda h: range(len(ops)), step, depth, split=2)
    rep.add("versions of a %s depth %d" % (name, depth), st)


def run(rep):
    boot()
    th = rep.thorough
    if rep.part_enabled("c"):
        cases = [(c, f, m) for c in READS for f in FLOWS for m in (SETTINGS if th else ("both",))]
        st = pmap(cases, construct_case)
        rep.add("construct catalogue", st)
    if rep.part_enabled("m"):
        cases = [(None, c, f, m) for c in MUTATIONS for f in FLOWS for m in (SETTINGS if th else ("both",))]
        cases += [(n, c, "any_order", "both") for n, c in KNOWN.items()]
        st = pmap(cases, mutation_case)
        rep.add("mutation histories", st)
    if rep.part_enabled("t"):
        for j, name in enumerate(RICH):
            rich_part(rep, name, 4 if th else 3, "any_order", "both")
            if th:
                rich_part(rep, name, 3, "in_order", "both")
                rich_part(rep, name, 3, "any_order", "dynamic")
                rich_part(rep, name, 2, "any_order", "both", prelude=True)
            else:
                rich_part(rep, name, 1, FLOWS[j % 2], "both", prelude=True)
    if rep.part_enabled("x"):
        for name in NOTEBOOKS:
            exact_part(rep, name, 5 if th and len(NOTEBOOKS[name]) < 4 else 4)
    if rep.part_enabled("v"):
        for name in VERSIONS:
            versions_part(rep, name, 4 if th else 3)
    rep.finish(
        "every construct x flow direction; every sequence of cell executions up to the depth on each notebook: slices of every variable and every "
        "execution are re-executed in a fresh namespace and compared; slices of scalar notebooks compared with the reference dependency closure; outcome = slice / namespace shape"
    )
