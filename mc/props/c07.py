# -*- coding: utf-8 -*-
"""C07: what the lab extension runs together with a cell (store.ts)."""
import json
import os
import subprocess

from driver import REPO
from explore import NPROC, Stats

LEVEL = "model_checking"
JS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ts", "closure.js")
# part: cells (quick), cells (thorough)
PARTS = {"closure": (4, 4), "cyclic": (3, 3), "pull": (4, 5), "stale": (3, 4)}


def shards(part, n):
    ps = [subprocess.Popen(["node", JS, REPO, part, str(n), str(i), str(NPROC)], stdout=subprocess.PIPE, stderr=subprocess.PIPE) for i in range(NPROC)]
    st = Stats()
    for p in ps:
        out, err = p.communicate()
        if p.returncode:
            st.violation("HARNESS", "closure.js %s: %s" % (part, err.decode()[-2000:]), {})
            continue
        d = json.loads(out)
        st.states += d["states"]
        st.transitions += d["executions"]
        st.execs += d["executions"]
        st.outcomes |= set(d["outcomes"])
        for v in d["violations"]:
            st.add_violation(v)
        st.samples.extend(d.get("samples", [])[: 6 - len(st.samples)])
    return st


def run(rep):
    for part, (quick, thorough) in PARTS.items():
        if rep.part_enabled(part):
            n = thorough if rep.thorough else quick
            rep.add("%s (%d cells)" % (part, n), shards(part, n))
    rep.finish(RULE)


RULE = (
    "for every dependency graph over n cells (all acyclic graphs; 'cyclic': all graphs), every set of cells to start from, "
    "every set of out-of-date cells, every notebook order and setting (flow order, pull, cousins): the cells store.ts returns and "
    "their order are compared with a least fixed point computed independently"
)


def replay(r):
    print(json.dumps(r))
