# -*- coding: utf-8 -*-
"""C04: reactive execution converges to restart-and-run-all."""
from common import RefSession, norm, snapshot
from driver import Session, boot
from explore import forest
from pure import PURE
from stale import Model

LEVEL = "model_checking"
CONFIGS = [(d, s) for s in ("liveness_based", "dag_based", "hybrid_dag_liveness_based") for d in ("any_order", "in_order")]


def reference(nb, pick, snap=snapshot):
    """run everything from the top; per cell: stdout and variables it defines"""
    r = RefSession()
    outs = []
    for i, k in enumerate(pick):
        out, shown, exc = r.run(nb[i][k].code)
        outs.append((out, exc is not None))
    return {n: norm(v) for n, v in snap(r.ns).items()}, outs


def reactive(s, code, i, st, limit=60):
    """what a frontend in reactive mode does after the user runs a cell"""
    runs = []
    done, todo = set(), set()
    r = s.run(code, i)
    runs.append((i, r))
    done.add(i)
    while True:
        st.bump("checks")
        res = s.check(last_executed_cell_id=runs[-1][0])
        todo |= res.new_ready_cells | res.forced_reactive_cells
        nxt = sorted(todo - done, key=lambda c: s.cells().from_id(c).position)
        if not nxt or len(runs) > limit:
            break
        c = nxt[0]
        r = s.run(s.cells().from_id(c).executed_content, c)
        runs.append((c, r))
        done.add(c)
    s.flow.comm_manager.handle_reactivity_cleanup()
    return runs, res


def edges(nb, pick, closures=True):
    """cell -> cells it reads from, under the current sources (closures: a function
    definition counts as reading what the function will)"""
    owner, free = {}, {}
    m = Model()
    dep = {}
    for i, k in enumerate(pick):
        dep[i] = set()
        for t, reads, fr in nb[i][k].steps:
            m.free = free
            for x in m.expand(reads):
                if x in owner and owner[x] != i:
                    dep[i].add(owner[x])
        for t, reads, fr in nb[i][k].steps:
            if t:
                owner[t] = i
                free.pop(t, None)
                if fr is not None:
                    free[t] = fr
                    # the definition itself follows what it closes over
                    for x in m.expand(fr) if closures else ():
                        if x in owner and owner[x] != i:
                            dep[i].add(owner[x])
    return dep


def downstream(dep, i):
    out, todo = set(), [i]
    while todo:
        x = todo.pop()
        for j, d in dep.items():
            if x in d and j not in out:
                out.add(j)
                todo.append(j)
    return out


def spec(name, depth, direction, schedule, split=0):
    nb = PURE[name]
    ops = [(i, k) for i in range(len(nb)) for k in range(len(nb[i]))]

    def make():
        s = Session(flow_direction=direction, exec_schedule=schedule)
        s.flow.mut_settings.exec_mode = type(s.flow.mut_settings.exec_mode)("reactive")
        for i in range(len(nb)):
            s.run(nb[i][0].code, i)
            s.check()
        s.flow.comm_manager.handle_reactivity_cleanup()
        return s

    def step(s, hist, op, st):
        pick = [0] * len(nb)
        for i, k in hist:
            pick[i] = k
        old = edges(nb, pick)
        i, k = op
        pick[i] = k
        new = edges(nb, pick)
        h = hist + (op,)
        label = [nb[a][b].code for a, b in h]

        def fail(kind, what):
            st.violation("%s|%s|%s|%r|%s" % (name, direction, schedule, h, kind), "after %r: %s" % (label, what), {"notebook": name, "ops": h, "flow": direction, "schedule": schedule})
            return False

        runs, res = reactive(s, nb[i][k].code, i, st)
        order = [c for c, _ in runs]
        for c, r in runs:
            if r.error is not None:
                return fail("error", "cell %r raised %r" % (c, r.error))
        want, outs = reference(nb, pick)
        got = {n: norm(v) for n, v in snapshot(s.ns).items()}
        diff = {n: (got.get(n), want.get(n)) for n in want if got.get(n) != want[n]}
        if diff:
            return fail("values", "cells run: %s; (has, run-all has) %s" % (order, diff))
        for c, r in runs:
            if r.stdout != outs[c][0]:
                return fail("output", "cell %d printed %r, not %r" % (c, r.stdout, outs[c][0]))
        if len(set(order)) != len(order):
            return fail("twice", "cells run: %s" % order)
        extra = set(order) - {i} - downstream(old, i) - downstream(new, i)
        if extra:
            return fail("unrelated", "cells run: %s, of which %s do not depend on cell %d" % (order, sorted(extra), i))
        left = (res.ready_cells | res.waiting_cells)
        if left:
            return fail("left", "cells run: %s; still ready or waiting: %s" % (order, sorted(left)))
        st.outcomes.add((tuple(order), repr(sorted(want.items()))))
        return True

    return dict(make=make, enabled=lambda h: ops, step=step, depth=depth, split=split)


def run(rep):
    boot()
    th = rep.thorough
    for d, s in CONFIGS:
        if not rep.part_enabled(s):
            continue
        deep = (d, s) in (("in_order", "dag_based"), ("any_order", "liveness_based"))
        n = (3 if deep else 2) if th else (2 if deep else 1)
        st = forest([spec(name, n, d, s, 1 if th else 0) for name in PURE])
        rep.add("%s %s depth %d" % (d, s, n), st)
    rep.finish("every sequence of edit-and-run steps up to the depth on each notebook, direction and schedule: namespace and outputs compared with running everything from the top; outcome = cells run and namespace")
