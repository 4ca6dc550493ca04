# -*- coding: utf-8 -*-
"""Exhaustive bounded exploration engines.

* ``tree``  - depth-first enumeration of every operation sequence up to a depth.
  The live implementation cannot be copied, so every branching point is an OS
  ``fork()``: the child takes the transition on the real objects, the parent
  keeps the state to try the next alternative from.  Nothing is sampled.
* ``pmap``  - every element of a finite list of independent executions.
"""
import gc
import os
import pickle
import select
import signal
import sys
import time
import traceback

NPROC = int(os.environ.get("VERIF_JOBS") or os.cpu_count() or 4)
STEP_TIMEOUT = 40
MAX_DIED = 3  # executions that did not end: nothing further is started
MAX_VIOL = int(os.environ.get("VERIF_ALL") or 40)


class Stats:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.execs = 0
        self.traces = 0
        self.outcomes = set()
        self.violations = []  # dicts: key, what, replay
        self.samples = []
        self.counters = {}

    def merge(self, o):
        self.states += o.states
        self.transitions += o.transitions
        self.execs += o.execs
        self.traces += o.traces
        if len(self.outcomes) < 200000:
            self.outcomes |= o.outcomes
        for v in o.violations:
            self.add_violation(v)
        if len(self.samples) < 6:
            self.samples.extend(o.samples[: 6 - len(self.samples)])
        for k, v in o.counters.items():
            self.counters[k] = self.counters.get(k, 0) + v

    def bump(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def add_violation(self, v):
        self.bump("violations_seen")
        if any(x["key"] == v["key"] for x in self.violations):
            return
        if len(self.violations) < MAX_VIOL:
            self.violations.append(v)

    def violation(self, key, what, replay):
        self.add_violation({"key": key, "what": what, "replay": replay})


def _readall(fd):
    chunks = []
    while True:
        b = os.read(fd, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(fd)
    return b"".join(chunks)


def through_impl(e):
    """Innermost frame of the code under test on the exception's traceback."""
    core = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "core") + os.sep
    best = None
    for f in traceback.extract_tb(e.__traceback__):
        if f.filename.startswith(core):
            best = f.name
    return best


def note_exception(res, e, ctx=None):
    """An exception that escapes one of the implementation's entry points is a
    violation (nothing the harness drives may raise); one of ours is an error."""
    tb = "".join(traceback.format_exception(type(e), e, e.__traceback__))
    where = through_impl(e)
    if where is not None:
        res.violation(
            "ESCAPED:%s" % type(e).__name__,
            "exception escaped the implementation (%s): %s\n%s" % (where, ctx, tb[-3000:]),
            {"case": repr(ctx), "traceback": tb},
        )
    else:
        res.violation("HARNESS", "harness exception on %r:\n%s" % (ctx, tb), None)
        res.bump("harness_errors")


def _child_main(w, fn):
    """Runs in the forked child; never returns."""
    rc = 0
    try:
        try:
            res = fn()
        except BaseException as e:
            res = Stats()
            note_exception(res, e)
        data = pickle.dumps(res)
        off = 0
        while off < len(data):
            off += os.write(w, data[off : off + (1 << 16)])
    except BaseException:
        rc = 3
    finally:
        os._exit(rc)


def fork_call(fn, describe=None):
    """Run fn() in a forked child, return its Stats."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _child_main(w, fn)
    os.close(w)
    data = _readall(r)
    _, status = os.waitpid(pid, 0)
    return _decode(data, status, describe)


def _decode(data, status, describe):
    try:
        return pickle.loads(data)
    except Exception:
        st = Stats()
        d = describe() if describe else {}
        sig = status & 0x7F
        what = (
            "execution did not terminate within %ds" % STEP_TIMEOUT
            if sig == signal.SIGALRM
            else "interpreter died (wait status %d)" % status
        )
        st.violation("DIED:" + str(d.get("key")), what, d)
        st.bump("died")
        return st


class alarm:
    """Bounds one step of the code under test (process is killed: no handler)."""

    def __enter__(self):
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(STEP_TIMEOUT)

    def __exit__(self, *a):
        signal.alarm(0)


def run_jobs(jobs, nproc=None, deadline=None):
    """jobs: list of (callable -> Stats, describe).  Forks each job from this
    process, at most nproc at a time; merges in job order (deterministic)."""
    nproc = nproc or NPROC
    total = Stats()
    results = [None] * len(jobs)
    live = {}
    nxt = 0
    bufs = {}
    skipped = died = 0
    gc.collect()
    gc.freeze()
    while nxt < len(jobs) or live:
        while nxt < len(jobs) and len(live) < nproc:
            if deadline is not None and time.time() > deadline:
                skipped += len(jobs) - nxt
                nxt = len(jobs)
                break
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for fd in live:
                    os.close(fd)
                _child_main(w, jobs[nxt][0])
            os.close(w)
            live[r] = (pid, nxt)
            bufs[r] = []
            nxt += 1
        if not live:
            break
        ready, _, _ = select.select(list(live), [], [])
        for fd in ready:
            b = os.read(fd, 1 << 20)
            if b:
                bufs[fd].append(b)
                continue
            pid, idx = live.pop(fd)
            os.close(fd)
            _, status = os.waitpid(pid, 0)
            results[idx] = _decode(b"".join(bufs.pop(fd)), status, jobs[idx][1])
            died += results[idx].counters.get("died", 0)
            if died >= MAX_DIED and nxt < len(jobs):
                skipped += len(jobs) - nxt
                nxt = len(jobs)
    for r in results:
        if r is not None:
            total.merge(r)
    if skipped:
        total.bump("jobs_skipped_deadline", skipped)
    return total


def pmap(cases, fn, nproc=None, chunk=None, deadline=None, fork=False):
    """fn(case, stats) on every case.  Each chunk is one forked process; cases
    inside a chunk share the process (fn must reset the code under test), unless
    ``fork``: then each case runs in its own fork of the prepared parent state."""
    nproc = nproc or NPROC
    cases = list(cases)
    if chunk is None:
        chunk = max(1, min(64, (len(cases) + nproc * 4 - 1) // (nproc * 4)))
    jobs = []
    for i in range(0, len(cases), chunk):
        part = cases[i : i + chunk]

        def job(part=part):
            st = Stats()
            for c in part:
                if st.counters.get("died", 0) >= MAX_DIED:
                    break
                if fork:

                    def one(c=c):
                        st2 = Stats()
                        try:
                            with alarm():
                                fn(c, st2)
                        except BaseException as e:
                            signal.alarm(0)
                            note_exception(st2, e, c)
                        return st2

                    st.merge(fork_call(one, lambda c=c: {"key": repr(c)[:300], "case": repr(c)}))
                    st.execs += 1
                    continue
                try:
                    with alarm():
                        fn(c, st)
                except BaseException as e:
                    signal.alarm(0)
                    note_exception(st, e, c)
                st.execs += 1
            return st

        jobs.append((job, lambda part=part: {"key": repr(part[0])[:300], "cases": [repr(c) for c in part]}))
    return run_jobs(jobs, nproc=nproc, deadline=deadline)


def tree(make, enabled, step, depth, split=1, nproc=None, deadline=None):
    return run_jobs(tree_jobs(make, enabled, step, depth, split), nproc=nproc, deadline=deadline)


def forest(trees, nproc=None, deadline=None):
    """Several trees (dicts of tree_jobs arguments) sharing one pool."""
    return run_jobs([j for t in trees for j in tree_jobs(**t)], nproc=nproc, deadline=deadline)


def tree_jobs(make, enabled, step, depth, split=1):
    """Enumerate every operation sequence.

    make()            -> fresh state (real objects)
    enabled(hist)     -> list of operations after the history (pure)
    step(state, hist, op, stats) -> True to continue below, False to prune;
                         executes op on the real state and checks the property
    """

    def dfs(state, hist, st):
        if len(hist) >= depth:
            return
        ops = enabled(hist)
        for i, op in enumerate(ops):
            if st.counters.get("died", 0) >= MAX_DIED:
                return

            def child(st=None, op=op):
                st2 = st or Stats()
                with alarm():
                    cont = step(state, hist, op, st2)
                st2.states += 1
                st2.transitions += 1
                if cont is not False:
                    if len(hist) + 1 >= depth:
                        st2.execs += 1
                    dfs(state, hist + (op,), st2)
                else:
                    st2.execs += 1
                return st2

            if i == len(ops) - 1:
                # last alternative: the state is not needed any more
                child(st)
            else:
                st.merge(fork_call(child, lambda op=op: {"key": repr(hist + (op,)), "history": [repr(o) for o in hist + (op,)]}))

    prefixes = [()]
    for _ in range(min(split, depth)):
        prefixes = [p + (o,) for p in prefixes for o in (enabled(p) or [None])]
    prefixes = [p for p in dict.fromkeys(tuple(o for o in p if o is not None) for p in prefixes)]

    def count_prefix(p, i):
        # a prefix node is counted by exactly one job: the one following it
        # with first alternatives only
        return all(p[j] == enabled(p[:j])[0] for j in range(i + 1, len(p)))

    jobs = []
    for p in prefixes:

        def job(p=p):
            st = Stats()
            state = make()
            hist = ()
            for i, op in enumerate(p):
                st2 = Stats()
                with alarm():
                    cont = step(state, hist, op, st2)
                if count_prefix(p, i):
                    st2.states += 1
                    st2.transitions += 1
                    st.merge(st2)
                hist += (op,)
                if cont is False:
                    st.execs += 1
                    return st
            if len(hist) >= depth:
                st.execs += 1
            dfs(state, hist, st)
            return st

        jobs.append((job, lambda p=p: {"key": repr(p), "history": [repr(o) for o in p]}))
    return jobs
