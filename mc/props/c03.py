# -*- coding: utf-8 -*-
"""C03: waiting / ready verdicts against the reference model of staleness."""
import live
from constructs import ALIAS_USES, READS, USES
from driver import Session, boot
from explore import Stats, fork_call, pmap, tree
from stale import NOTEBOOKS, Model, V

LEVEL = "model_checking"

# constructs whose value is computed through an extra hop: the consumer of r is
# reported waiting only once the defining cell was re-run
WEAK = {"idx", "swap", "setdefault", "try2", "closure", "gen", "deco", "match", "del"}
SEQS = [(3,), (9,), (0,), (0, 1), (0, 0, 1), (0, 2), (0, 1, 2), (1,), (1, 2), (0, 1, 0, 2), (2, 0, 1)]


def fmt(s):
    return "waiting %s ready %s" % (sorted(s[0]), sorted(s[1]))


def verdict(s, i, **kw):
    res = s.check(last_executed_cell_id=i, **kw)
    return set(res.waiting_cells), set(res.ready_cells)


def notebook_part(rep, name, depth, prelude):
    nb = NOTEBOOKS[name]
    ops = [(i, v) for i in nb for v in range(len(nb[i]))]

    def make():
        s, m = Session(), Model()
        if prelude:
            for i in nb:
                s.run(nb[i][0].code, i)
                m.run(i, nb[i][0])
                verdict(s, i)
        return s, m

    def step(state, hist, op, st):
        s, m = state
        i, v = op
        var = nb[i][v]
        r = s.run(var.code, i)
        ok = m.run(i, var)
        if ok != (r.error is None):
            st.violation("%s:%r" % (name, hist + (op,)), "cell %d %s" % (i, "raised %r" % r.error if ok else "did not raise"), None)
            return False
        got, want = verdict(s, i), m.status()
        st.outcomes.add(fmt(want))
        if got != want:
            st.violation(
                "%s:%r" % (name, hist + (op,)),
                "notebook %s after %s: reported %s, expected %s" % (name, [repr(nb[a][b]) for a, b in hist + (op,)], fmt(got), fmt(want)),
                {"notebook": name, "prelude": prelude, "ops": list(hist + (op,))},
            )
            return False
        return True

    st = tree(make, lambda h: ops, step, depth, split=2)
    st.samples = [repr([repr(nb[a][b]) for a, b in ops[:depth]])]
    rep.add("notebook %s%s" % (name, " after run-all" if prelude else ""), st)


def construct_nb(c, use):
    cells = {}
    if c.pre:
        cells[9] = V(c.pre, ("PRE", ()))
    cells[0] = None
    cells[1] = V(c.code, ("r", ("a",) + (("PRE",) if c.pre else ())))
    cells[2] = V(use, (None, ("r",)))
    cells[3] = V("z = 3.5", ("z", ()))
    return cells


def construct_case(case, st):
    c, use, seq = case
    cells = construct_nb(c, use)
    if 9 in seq and not c.pre:
        return
    var = lambda i, n: V("a = %d" % (2000 + n), ("a", ())) if i == 0 else cells[i]
    s, m = Session(), Model()
    todo = [i for i in (9, 0, 1, 2, 3) if i in cells]
    key = "%s | %s | %s" % (c.name, use.replace("\n", "; "), list(seq))
    for k, i in enumerate(todo + list(seq)):
        x = var(i, k)
        r = s.run(x.code, i)
        m.run(i, x)
        if r.error is not None:
            st.violation("error:%s" % key, "cell %r raised %r" % (x.code, r.error), None)
            return
        if k < len(todo) - 1:
            continue
        got, want = verdict(s, i), m.status()
        st.states += 1
        st.transitions += 1
        st.outcomes.add(fmt(want))
        weak = c.name in WEAK or (c.pre and 9 in seq)
        if weak and 1 in want[1]:
            # required: the direct reader is ready, nothing unrelated reported
            ok = 1 in got[1] and 3 not in got[0] | got[1] and 0 not in got[0] | got[1] and 9 not in got[0] | got[1]
        else:
            ok = got == want
        if not ok:
            st.violation(
                finding(c, use) or key,
                "r defined by %r, used by %r, cells run %s: reported %s, expected %s" % (c.code, use, todo + list(seq[: k - len(todo) + 1]), fmt(got), fmt(want)),
                {"construct": c.name, "use": use, "seq": list(seq)},
            )
            return


def finding(c, use):
    """names of recorded findings: specific (construct, consumer) call sites"""
    if c.name == "list" and use in ALIAS_USES[1:]:
        return "embedding a stale container: %s" % use


BASE = None
P = 9


def live_prepare():
    s = Session()
    for n, v in enumerate(live.VARS):
        s.run("%s = [1, 2]" % v, n)
    s.run("z = [0]", len(live.VARS))
    return s


def live_case(code, st):
    """the cell becomes ready exactly when a variable it reads is assigned again"""
    want = live.reads(code)
    if want is None:
        return
    sure, maybe = want
    s = BASE
    r = s.run(code, P)
    if r.error is not None:
        return st.violation("live error:" + code, "%r raised %r" % (code, r.error), {"cell": code})
    st.states += 1
    for n, v in enumerate(live.VARS + ("z",)):

        def again(n=n, v=v):
            st = Stats()
            s.run("%s = [1, 2, 3]" % v, n)
            waiting, ready = verdict(s, n)
            st.transitions += 1
            st.outcomes.add((v, P in ready))
            where = {"cell": code, "variable": v}
            if P in waiting:
                st.outcomes.add((v, "waiting"))
                return st  # it reads something of its own that holds a part of the variable's value
            if v in sure and P not in ready:
                st.violation("live missing %s:%s" % (v, code), "%r reads %s, but is not ready after another cell assigned %s again" % (code, v, v), where)
            elif v not in maybe and P in ready:
                st.violation("live extra %s:%s" % (v, code), "%r does not read the %s of another cell, but is ready after that was assigned again" % (code, v), where)
            return st

        st.merge(fork_call(again))


def run(rep):
    global BASE
    boot()
    if rep.part_enabled("p"):
        BASE = live_prepare()
        cases = list(dict.fromkeys(live.programs(rep.thorough)))
        st = pmap(cases, live_case, chunk=16, fork=True)
        st.samples = cases[7:200:60]
        rep.add("programs", st)
    if rep.part_enabled("n"):
        notebook_part(rep, "chain", 4 if not rep.thorough else 5, False)
    if rep.part_enabled("c"):
        uses = USES if rep.thorough else USES[:4]
        if rep.thorough:
            cases = [(c, u, q) for c in READS for u in uses for q in SEQS]
        else:
            cases = [(c, u, q) for j, c in enumerate(READS) for u in (uses[j % 4],) for q in [(9,), (0, 1, 0, 2), (2, 0, 1)]]
        lst = [c for c in READS if c.name == "list"][0]
        cases += [(lst, u, (0, 2)) for u in ALIAS_USES]
        st = pmap(cases, construct_case)
        st.samples = [repr(cases[0]), repr(cases[-1])]
        rep.add("construct catalogue", st)
    if rep.part_enabled("m"):
        for name in list(NOTEBOOKS):
            notebook_part(rep, name, 4 if rep.thorough else 2, True)
    rep.finish(
        "every sequence of cell (variant) executions up to the depth on each notebook; every read construct x consumer x re-run sequence; "
        "outcome = (waiting set, ready set) of the reference model"
    )
