# -*- coding: utf-8 -*-
"""The real lab extension (in node, mc/ts/frontend.js) connected to the real kernel
side (comm manager, flow, shell): a JupyterLab session without JupyterLab."""
import contextlib
import io
import json
import os
import socket
import subprocess
import tempfile
import time

from driver import REPO, Session, boot

HERE = os.path.dirname(os.path.abspath(__file__))
_server = None
_path = None


def start_server():
    """one node process shared by every forked explorer (it keeps no state)"""
    global _server, _path
    if _server is None:
        _path = os.path.join(tempfile.mkdtemp(prefix="lab", dir=os.environ.get("IPYTHONDIR")), "s")
        _server = [subprocess.Popen(["node", os.path.join(HERE, "ts", "frontend.js"), REPO, _path + str(i)], stdout=subprocess.PIPE) for i in range(4)]
        for s in _server:
            assert s.stdout.readline().startswith(b"listening")
        import atexit

        me = os.getpid()
        atexit.register(lambda: os.getpid() == me and [s.kill() for s in _server])


class FrontendError(Exception):
    pass


def ask(log):
    s = socket.socket(socket.AF_UNIX)
    s.connect(_path + str(os.getpid() % len(_server)))
    s.sendall(json.dumps(log).encode())
    s.shutdown(socket.SHUT_WR)
    chunks = []
    while True:
        b = s.recv(1 << 16)
        if not b:
            break
        chunks.append(b)
    s.close()
    r = json.loads(b"".join(chunks))
    if "error" in r:
        raise FrontendError(r["error"])
    return r


class Lab:
    """cells: list of (id, source[, type]); config: what a user would set in the
    IPython configuration (passed with the comm's open message)."""

    def __init__(self, cells, config=None, metadata=None, setup=None):
        self.s = Session()
        self.flow = self.s.flow
        if setup:
            setup(self)
        self.config = config or {}
        self.queue = []
        self.runs = []  # (cell id, source, stdout, error) of every execution
        self.log = [["init", {"cells": [dict(id=c[0], source=c[1], type=c[2] if len(c) > 2 else "code") for c in cells], "metadata": metadata or {}}]]
        self._take(ask(self.log))
        self.drain()

    def _take(self, r):
        self.view = r["view"]
        self.queue.extend(r["actions"])

    def event(self, *ev):
        self.log.append(list(ev))
        self._take(ask(self.log))

    def send(self, payload):
        """kernel -> frontend"""
        self.event("msg", json.loads(json.dumps(payload)))

    # the shell channel of the kernel: messages are handled one at a time, in order
    def step(self):
        kind, *a = self.queue.pop(0)
        if kind == "execute":
            return self._execute(*a)
        if kind == "open":
            self.flow.mut_settings.interface = None
            data = dict(a[0], **self.config)
            with contextlib.redirect_stderr(io.StringIO()):
                self.flow.initialize(**data)
            return self.send({"type": "establish", "success": True})
        if kind == "request":
            self._run(a[0], None, store=False)
            return self.event("requested")
        assert kind == "comm"
        out = []

        class C:
            def send(self, resp):
                out.append(resp)

        self.flow.comm_manager.handle(a[0], comm=C())
        for resp in out:
            self.send(resp)

    def _run(self, code, cell_id, store=True):
        sh = self.s.shell
        if store:
            sh.execution_count = self.s.cells().next_exec_counter()
            self.flow.set_active_cell(cell_id)
        out, err = io.StringIO(), io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            ret = sh.run_cell(code, store_history=store, silent=not store, **({"cell_id": cell_id} if cell_id else {}))
        return out.getvalue(), ret.error_in_exec or ret.error_before_exec

    def _execute(self, cid, source):
        before = self.flow.exception_counter
        out, err = self._run(source, cid)
        self.runs.append((cid, source, out, None if err is None else repr(err)))
        if self.flow.exception_counter != before:
            self.runs[-1] = self.runs[-1][:3] + ("INTERNAL %r" % (self.flow._last_exception_raised,),)
        self.event("executed", cid, self.s.shell.execution_count - 1)
        if err is not None:  # executions that are already queued are aborted
            rest, self.queue = self.queue, []
            aborted = [q for q in rest if q[0] == "execute"]
            self.queue = [q for q in rest if q[0] != "execute"] + self.queue
            for q in aborted:
                self.event("executed", q[1], None)

    def drain(self, limit=400):
        n = 0
        while self.queue:
            self.step()
            n += 1
            if n > limit:
                raise RuntimeError("the reaction does not end")
        return n

    def user(self, *ev, drain=True):
        self.event(*ev)
        if drain:
            self.drain()
