# -*- coding: utf-8 -*-
"""Verdict, replay artefacts, known findings and evidence of one check run."""
import hashlib
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.jsonl")


def load_known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            d = json.loads(line)
            if d.get("status") == "known" and d["property"] == pid:
                out[d["key"]] = d
    return out


class Report:
    def __init__(self, pid, level, tier=None, seed=None):
        self.pid = pid
        self.level = level
        self.tier = tier or os.environ.get("VERIF_TIER") or "quick"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED") or 1)
        self.t0 = time.time()
        self.parts = []
        self.violations = []
        self.harness_errors = []
        self.coverage = {}
        self.assumptions = []

    def part_enabled(self, name):
        """VERIF_PART=name[,name] restricts a run (debugging only)."""
        sel = os.environ.get("VERIF_PART")
        return not sel or name in sel.split(",")

    @property
    def thorough(self):
        return self.tier == "thorough"

    def add(self, name, stats, **extra):
        d = dict(
            part=name,
            states=stats.states,
            transitions=stats.transitions,
            executions=stats.execs,
            distinct_outcomes=len(stats.outcomes),
            counters=stats.counters,
            samples=stats.samples,
        )
        d.update(extra)
        self.parts.append((d, stats))
        for v in stats.violations:
            v = dict(v)
            v["part"] = name
            if v["key"] == "HARNESS":
                self.harness_errors.append(v)
            else:
                self.violations.append(v)
        print(
            "[%s] part %-28s states=%d transitions=%d executions=%d outcomes=%d %s (%.1fs)"
            % (
                self.pid, name, stats.states, stats.transitions, stats.execs,
                len(stats.outcomes),
                " ".join("%s=%s" % kv for kv in sorted(stats.counters.items())),
                time.time() - self.t0,
            ),
            flush=True,
        )

    def finish(self, rule, exhaustive=True, traces=None):
        known = load_known(self.pid)
        tot = lambda a: sum(getattr(s, a) for _, s in self.parts)
        samples = [x for d, _ in self.parts for x in d["samples"]][:12]
        outcomes = set()
        for d, s in self.parts:
            outcomes |= {(d["part"], o) for o in s.outcomes}
        skipped = sum(s.counters.get("jobs_skipped_deadline", 0) for _, s in self.parts)
        new, listed = [], []
        for v in self.violations:
            k = known.get(v["key"])
            (listed if k else new).append((v, k))
        cov = {
            "rule": rule,
            "samples": samples,
            "exhaustive": bool(exhaustive and not skipped),
            "parts": [d for d, _ in self.parts],
            "distinct_outcomes": len(outcomes),
        }
        if self.level == "model_checking":
            cov.update(
                states=tot("states"),
                transitions=tot("transitions"),
                traces_validated_against_impl=traces if traces is not None else tot("execs"),
            )
        else:
            cov.update(evaluations=tot("execs"), distinct_nontrivial=len(outcomes))
        cov.update(self.coverage)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for v, k in listed:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if self.harness_errors:
            for v in self.harness_errors[:3]:
                print("HARNESS ERROR in %s: %s" % (v["part"], v["what"]), file=sys.stderr)
        rdir = os.path.join(VERIF, "replays")
        if os.environ.get("VERIF_ALL"):
            with open("/tmp/viol-%s.json" % self.pid, "w") as f:
                json.dump([v for v, _ in new], f, indent=1, default=str)
        for i, (v, _) in enumerate(new[:5]):
            os.makedirs(rdir, exist_ok=True)
            h = hashlib.sha1(v["key"].encode()).hexdigest()[:10]
            path = os.path.join(rdir, "%s-%s.json" % (self.pid, h))
            with open(path, "w") as f:
                json.dump({"property": self.pid, **v}, f, indent=1, default=str)
            print("--- %s [%s] %s\n    %s" % (self.pid, v["part"], v["key"], v["what"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        sys.stdout.flush()
        if new:
            sys.exit(1)
        if self.harness_errors:
            sys.exit(2)
        print("%s OK: %d states, %d executions, %.1fs" % (self.pid, tot("states"), tot("execs"), time.time() - self.t0))
        sys.exit(0)
