# -*- coding: utf-8 -*-
"""C08: a reactive JupyterLab session converges (lab extension + kernel)."""
import lab
from common import norm, snapshot
from driver import boot
from explore import forest
from props.c04 import downstream, edges, reference
from pure import D, P, PURE

LEVEL = "model_checking"
# what the user configures; the rest are defaults (reactive, in order, DAG-based, batch)
CONFIGS = {
    "default": {},
    "any order": {"flow_direction": "any_order"},
    "liveness": {"exec_schedule": "liveness_based"},
    "hybrid": {"exec_schedule": "hybrid_dag_liveness_based"},
    "any order liveness": {"flow_direction": "any_order", "exec_schedule": "liveness_based"},
    "incremental liveness": {"reactivity_mode": "incremental", "exec_schedule": "liveness_based"},
    "incremental hybrid": {"reactivity_mode": "incremental", "exec_schedule": "hybrid_dag_liveness_based"},
    "lazy": {"exec_mode": "lazy"},
    "lazy any order": {"exec_mode": "lazy", "flow_direction": "any_order"},
    "lazy liveness": {"exec_mode": "lazy", "exec_schedule": "liveness_based"},
}
RESTART = ("default", "any order", "hybrid")
COMMANDS = {"next": "notebook:run-cell-and-select-next", "alt": "alt-mode-execute", "forward": "execute-forward-slice", "backward": "execute-backward-slice"}
RUN = "notebook:run-cell"


def ids(nb):
    return ["c%d" % i for i in range(len(nb))]


def open_and_run(nb, config):
    L = lab.Lab([(c, nb[i][0].code) for i, c in enumerate(ids(nb))], CONFIGS[config])
    L.user("debounce")
    for c in ids(nb):
        L.user("activate", c)
        L.user("command", RUN)
    L.user("debounce")
    return L


def separately(ns):
    """whatever is shared between variables left out"""
    return {n: v for k in ns for n, v in snapshot({k: ns[k]}).items()}


def values(L, snap=snapshot):
    return {n: norm(v) for n, v in snap(L.s.ns).items()}


def upstream(dep, i):
    out, todo = set(), [i]
    while todo:
        for j in dep[todo.pop()]:
            if j not in out:
                out.add(j)
                todo.append(j)
    return out


def changes(name, config):
    """moving any cell, deleting one that nobody reads, adding a reader of any other"""
    nb = PURE[name]
    dep = edges(nb, [0] * len(nb))
    n = len(nb)
    inorder = "any order" not in config
    owner = {t: i for i in range(n) for t, _, _ in nb[i][0].steps if t}
    for i in range(n):
        for p in range(n):
            order = [j for j in range(n) if j != i]
            order.insert(p, i)
            if p != i and (not inorder or all(order.index(x) < order.index(j) for j in range(n) for v in (0, 1) for x in edges(nb, [min(v, len(c) - 1) for c in nb])[j])):
                yield ("move", i, p)
        if not any(i in edges(nb, [min(v, len(c) - 1) for c in nb])[j] for j in range(n) for v in (0, 1)):
            yield ("delete", i)
    for t, i in sorted(owner.items()):
        for p in range(i + 1 if inorder else 0, n + 1):
            yield ("add", t, p)


def spec(name, depth, config, modes, split=0, change=None):
    """modes: 'run' (edit, wait, run), 'fast' (edit and run right away: the extension
    only notices the edit afterwards), 'edit' (without running)"""
    nb = base = PURE[name]
    if change and change[0] == "add":
        nb = base + [[D("new = [%s]" % change[1], "new", change[1]), D("new = {'v': %s}" % change[1], "new", change[1])]]
    gone = change[1] if change and change[0] == "delete" else None
    ops = [(i, k, mode) for i in range(len(nb)) for k in range(len(nb[i])) for mode in modes if i != gone and (mode != "error" or k == 0)]
    prefix = "%r then " % (change,) if change else ""
    tag = "%s %r" % (config, change) if change else config
    if gone is not None:
        nb = base[:gone] + [[P("")]] + base[gone + 1:]

    def make():
        L = open_and_run(base, config)
        if change:
            if change[0] == "move":
                L.user("move", "c%d" % change[1], change[2])
            elif change[0] == "delete":
                L.user("delete", "c%d" % change[1])
            else:
                L.user("add", {"id": "c%d" % len(base), "source": nb[-1][0].code}, change[2])
            L.user("debounce")
        return L

    def step(L, hist, op, st):
        pick, broken = [0] * len(nb), set()
        for i, k, mode in hist:
            pick[i] = k
            (broken.add if mode == "error" else broken.discard)(i)
        # what the cells contained when they last ran, and when that was
        ran, when = [0] * len(nb), [-1] * len(nb)
        for t, (c, source, _, _) in enumerate(L.runs):
            ran[int(c[1:])], when[int(c[1:])] = source, t
        old = edges(nb, pick)
        i, k, mode = op
        pick[i] = k
        broken.discard(i)
        new = edges(nb, pick)
        h = hist + (op,)
        label = [(m, nb[a][b].code if m != "error" else "raise") for a, b, m in h]
        n0 = len(L.runs)
        dirty = {j for j in range(len(nb)) if (ran[j] != nb[j][pick[j]].code or any(when[u] > when[j] for u in upstream(old, j))) and j != gone}

        def fail(kind, what):
            st.violation("%s|%s|%r|%s" % (name, tag, h, kind), "%s: %safter %r: %s" % (config, prefix, label, what), {"notebook": name, "config": config, "ops": h})
            return False

        L.user("activate", "c%d" % i)
        L.user("edit", "c%d" % i, nb[i][k].code if mode != "error" else "raise KeyError('stop')")
        if mode != "fast":
            L.user("debounce")
        if mode == "edit":
            if len(L.runs) > n0:
                return fail("edit", "cells run although none was asked for: %s" % [r[0] for r in L.runs[n0:]])
            return True
        L.user("command", COMMANDS.get(mode, RUN))
        L.user("debounce")
        exact = "liveness" not in config and "hybrid" not in config  # otherwise what becomes ready runs, too
        alone = mode == "alt" and ("incremental" in config or exact and "lazy" not in config)
        if "lazy" in config and mode not in ("alt", "forward", "backward"):
            if [r[0] for r in L.runs[n0:]] != ["c%d" % i]:
                return fail("lazy", "cells run: %s" % [r[0] for r in L.runs[n0:]])
            if mode != "error":
                L.user("command", "execute-stale")
        if mode == "next" and L.view["active"] != L.view["order"][min(L.view["order"].index("c%d" % i) + 1, len(nb) - 1)]:
            return fail("next", "active cell is %s" % L.view["active"])
        if L.view["running"]:
            return fail("end", "still running %s" % L.view["running"])
        runs = L.runs[n0:]
        order = [int(r[0][1:]) for r in runs]
        st.bump("cells_run", len(runs))
        for n, r in enumerate(runs):
            if r[3] and (mode == "error" and order[n] == i or order[n] in broken) and r[3] == "KeyError('stop')":
                if n < len(runs) - 1 and "hybrid" not in config:  # there the dependents run again, with the old value
                    return fail("after error", "cells run: %s although cell %d raised" % (order, order[n]))
                st.outcomes.add(("error", tuple(order)))
                return True
            if r[3]:
                return fail("error", "cell %s raised %s" % (r[0], r[3]))
        if mode == "error":
            return fail("error", "cells run: %s" % order)
        if alone:
            if order != [i]:
                return fail("alone", "cells run: %s" % order)
            st.outcomes.add(("alone", i))
            return True
        if mode == "backward":
            must, may = {i} | upstream(edges(nb, pick, closures=False), i), {i} | upstream({j: old[j] | new[j] for j in new}, i)
            if hist or not exact:  # what was read earlier is not forgotten
                may = set(order)
            if any(m == "error" for _, _, m in hist):  # what the cell that failed reads is not known
                must = {i}
            if not must <= set(order) <= may or "any order" not in config and exact and order != sorted(set(order)):
                return fail("slice", "cells run: %s, the slice is %s" % (order, sorted(must)))
            st.outcomes.add(("slice", tuple(order)))
        left = dirty - set(order) - {i} | broken
        if "lazy" in config and left and mode not in ("alt", "forward", "backward"):
            return fail("left", "cells run: %s; edited, but not run: %s" % (order, sorted(left)))
        bad = left | {j for j in range(len(nb)) if upstream(new, j) & left}
        if mode == "backward":
            bad |= {j for j in range(len(nb)) if j not in order}
        snap = separately if change or bad else snapshot
        want, outs = reference(nb, pick, snap)
        got = values(L, snap)
        defines = lambda n: [j for j in range(len(nb)) if any(t == n for t, _, _ in nb[j][pick[j]].steps)]
        diff = {n: (got.get(n), want.get(n)) for n in want if got.get(n) != want[n] and not set(defines(n)) & bad}
        if diff:
            return fail("values", "cells run: %s; (has, run-all has) %s" % (order, diff))
        for c, r in zip(order, runs):
            if r[2] != outs[c][0] and c not in bad and order.index(c) == len(order) - 1 - order[::-1].index(c):
                return fail("output", "cell %d printed %r, not %r" % (c, r[2], outs[c][0]))
        if len(set(order)) != len(order):
            return fail("twice", "cells run: %s" % order)
        if mode == "backward":
            return True
        extra = set(order) - dirty - {i}
        for j in dirty | {i}:
            extra -= downstream(old, j) | downstream(new, j)
        if extra:
            return fail("unrelated", "cells run: %s, of which %s do not depend on cell %d" % (order, sorted(extra), i))
        left = [] if left else L.view["ready"] + L.view["waiting"] + L.view["dirty"]
        if left:
            return fail("left", "cells run: %s; still ready, waiting or dirty: %s" % (order, sorted(left)))
        st.outcomes.add((tuple(order), repr(sorted(want.items()))))
        return True

    return dict(make=make, enabled=lambda h: ops, step=step, depth=depth, split=split)


def restart(name, depth, config, split=0):
    """the kernel is restarted; what the extension saved in the notebook's metadata
    and the cells' sources are all that is left.  First operation: edits made before
    the restart and the first cell run; later ones: edit and run."""
    nb = PURE[name]
    edited = [[0] * len(nb)] + [[0] * i + [k] + [0] * (len(nb) - i - 1) for i in range(len(nb)) for k in range(1, len(nb[i]))]
    first = [(p, i) for p in range(len(edited)) for i in range(len(nb))]
    rest = [(i, k) for i in range(len(nb)) for k in range(len(nb[i]))]

    def make():
        return None

    def step(state, hist, op, st):
        h = hist + (op,)
        if not hist:
            pick, i = list(edited[op[0]]), op[1]
            L = open_and_run(nb, config)
            for j in range(len(nb)):
                if pick[j]:
                    L.user("activate", "c%d" % j)
                    L.user("edit", "c%d" % j, nb[j][pick[j]].code)
                    L.user("debounce")
                    L.user("command", RUN)
            L.user("debounce")
            old = edges(nb, [0] * len(nb))
            meta = {"ipyflow": {"cell_parents": L.view["parents"], "cell_children": L.view["children"]}}
            L = lab.Lab([(c, nb[j][pick[j]].code) for j, c in enumerate(ids(nb))], CONFIGS[config], metadata=meta)
            L.user("debounce")
        else:
            L, pick, old = state[0]
            i, k = op
            old = {j: old[j] | e for j, e in edges(nb, pick).items()}
            pick[i] = k
        if L.runs:
            st.bump("later")
        label = [nb[j][pick[j]].code for j in range(len(nb))]

        def fail(kind, what):
            st.violation("%s|%s|%r|restart %s" % (name, config, h, kind), "%s: kernel restarted, then %r; cells %r: %s" % (config, h, label, what), {"notebook": name, "config": config, "ops": h})
            return False

        n0 = len(L.runs)
        L.user("activate", "c%d" % i)
        L.user("edit", "c%d" % i, nb[i][pick[i]].code)
        L.user("debounce")
        L.user("command", RUN)
        L.user("debounce")
        order = [int(r[0][1:]) for r in L.runs[n0:]]
        dep, sure = edges(nb, pick), edges(nb, pick, closures=False)
        need = {i} | downstream(sure, i)
        for j in set(need):
            need |= upstream(sure, j)
        for r in L.runs[n0:]:
            if r[3]:
                return fail("error", "cells run: %s; cell %s raised %s" % (order, r[0], r[3]))
        want, outs = reference(nb, pick, separately)
        got = values(L, separately)
        have = {j for j in range(len(nb)) if ("c%d" % j) in {r[0] for r in L.runs}}
        diff = {n: (got.get(n), want.get(n)) for j in have for t, _, _ in nb[j][pick[j]].steps for n in [t] if n in want and got.get(n) != want[n]}
        if diff:
            return fail("values", "cells run: %s; (has, run-all has) %s" % (order, diff))
        if len(set(order)) != len(order):
            return fail("twice", "cells run: %s" % order)
        if not need <= have:
            return fail("missing", "cells run: %s, not run: %s" % (order, sorted(need - have)))
        both = {j: dep[j] | old[j] for j in dep}  # what a cell once read is not forgotten
        may, n = {i}, 0
        while len(may) > n:  # cells that are pulled in are pushed on, too
            n = len(may)
            for j in set(may):
                may |= downstream(both, j)
            for j in set(may):
                may |= upstream(both, j)
        if not set(order) <= may:
            return fail("extra", "cells run: %s, needed at most: %s" % (order, sorted(may)))
        st.outcomes.add((tuple(order), repr(sorted(got.items()))))
        if state is not None:
            state[0] = (L, pick, both)
        return True

    return dict(make=lambda: [None], enabled=lambda h: first if not h else rest, step=step, depth=depth, split=split)


RULE = (
    "every sequence of edit-and-run operations up to the part's depth, in every notebook of mc/pure.py with the listed user "
    "configuration, performed through the simulated JupyterLab: all messages between the real lab extension and the real kernel side "
    "are delivered; after every reaction the variables, output, executed cells and the extension's own view are compared with "
    "running all cells from the top and with the notebook's dependencies"
)


def run(rep):
    boot()
    lab.start_server()
    full = rep.thorough
    if rep.part_enabled("configurations"):
        rep.add("configurations", forest([spec(name, 1, config, ("fast",)) for config in CONFIGS for name in PURE]))
        for config in CONFIGS if full else ():
            if config != "default":
                rep.add(config, forest([spec(name, 2, config, ("run",), split=1) for name in PURE]))
    if rep.part_enabled("histories"):
        modes = ("run", "edit") if full else ("run",)
        some = PURE if full else ("chain", "function", "default", "wide")
        rep.add("histories", forest([spec(name, 2, "default", modes, split=1) for name in some]))
    if rep.part_enabled("commands"):
        modes = ("next", "alt", "forward", "backward", "error")
        rep.add("commands", forest([spec(name, 1, config, [m for m in modes if m[-4:] != "ward" or "incremental" not in config]) for config in (CONFIGS if full else ("default", "incremental liveness", "lazy")) for name in PURE]))
    if rep.part_enabled("command histories") and full:
            modes = ("run", "alt", "forward", "backward", "error")
            rep.add("command histories", forest([spec(name, 2, config, [m for m in modes if m[-4:] != "ward" or "incremental" not in config], split=1)
                                                 for config in ("default", "any order", "incremental liveness", "lazy") for name in PURE]))
    if rep.part_enabled("structure"):
        st = forest([spec(name, 1, config, ("run",), change=c) for name in PURE for config in ("default", "any order")
                     for c in changes(name, config) if full or config == "default" and (c[0] != "add" or c[2] == len(PURE[name]))])
        rep.add("structure", st)
    if rep.part_enabled("restart"):
        rep.add("restart", forest([restart(name, 2 if full else 1, config, split=1 if full else 0) for name in (PURE if full else ("chain", "function", "container", "wide")) for config in (RESTART if full else RESTART[:1])]))
    rep.finish(RULE)
