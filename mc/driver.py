# -*- coding: utf-8 -*-
"""In-process driver for the real ipyflow: one shell per process, one fresh
NotebookFlow + DataflowTracer + user namespace per execution (history)."""
import contextlib
import io
import os
import re
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")

_shell = None


def boot():
    """Import ipyflow from /repo's working tree and create the shell singleton."""
    global _shell
    if _shell is not None:
        return _shell
    if os.path.join(REPO, "core") not in sys.path:
        sys.path.insert(0, os.path.join(REPO, "core"))
    import warnings

    warnings.filterwarnings("ignore")
    import logging

    logging.basicConfig(level=logging.CRITICAL)
    from ipyflow.shell import IPyflowInteractiveShell

    _shell = IPyflowInteractiveShell.instance()
    import ipyflow

    assert os.path.realpath(ipyflow.__file__).startswith(os.path.realpath(REPO)), ipyflow.__file__
    # no history database, no colours in tracebacks
    try:
        _shell.history_manager.enabled = False
    except Exception:
        pass
    _shell.colors = "NoColor"
    # the full traceback renderer takes ~0.2 s per exception
    _shell.InteractiveTB.set_mode(mode="Minimal")
    logging.disable(logging.CRITICAL)
    return _shell


class Result:
    __slots__ = ("stdout", "stderr", "error", "value", "internal", "ret")

    def __init__(self, stdout, stderr, error, value, internal, ret=None):
        self.stdout = stdout
        self.stderr = stderr
        self.error = error  # exception object raised by the user code (or None)
        self.value = value  # value of last expression
        self.internal = internal  # exception recorded by ipyflow itself
        self.ret = ret


class Session:
    """A fresh notebook session on the real code."""

    def __init__(self, dev=False, test=False, setup=None, **flow_kw):
        sh = boot()
        from ipyflow.config import FlowDirection, ExecutionSchedule, ExecutionMode
        from ipyflow.flow import NotebookFlow
        from ipyflow.tracing.ipyflow_tracer import DataflowTracer

        os.environ["PYCCOLO_DEV_MODE"] = "1" if dev else "0"
        self.shell = sh
        flow_kw.setdefault("flow_direction", FlowDirection.ANY_ORDER)
        for k, enum in (
            ("flow_direction", FlowDirection),
            ("exec_schedule", ExecutionSchedule),
            ("exec_mode", ExecutionMode),
        ):
            if isinstance(flow_kw.get(k), str):
                flow_kw[k] = enum(flow_kw[k])
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            sh.cleanup_tracers()
            sh.reset()
        NotebookFlow.clear_instance()
        self.flow = NotebookFlow.instance(test_context=test, is_dev_mode=dev, **flow_kw)
        DataflowTracer.clear_instance()
        DataflowTracer.reset_bookkeeping()
        DataflowTracer.instance()
        from ipyflow.data_model.cell import cells

        self.cells = cells
        self.outs = []
        if setup:
            self.run(setup, cell_id="<setup>")
            self.flow.reset_cell_counter()
            self.flow.reset_exception_counter()

    # -- executing ----------------------------------------------------------
    def run(self, code, cell_id=None, pos=None, capture=True):
        sh, fl = self.shell, self.flow
        cells = self.cells()
        ctr = cells.next_exec_counter()
        sh.execution_count = ctr
        if cell_id is None:
            cell_id = ctr
        fl.set_active_cell(cell_id)
        if pos is None:
            pos = cells._position_by_cell_id.get(cell_id)
        if pos is None:
            pos = cell_id if isinstance(cell_id, int) else ctr
        cells._position_by_cell_id[cell_id] = pos
        before = fl.exception_counter
        if capture:
            out, err = io.StringIO(), io.StringIO()
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                ret = sh.run_cell(code, cell_id=cell_id, store_history=True)
        else:
            out = err = None
            ret = sh.run_cell(code, cell_id=cell_id, store_history=True)
        sys.last_value = sys.last_traceback = None
        internal = None
        if fl.exception_counter != before:
            internal = fl._last_exception_raised
        error = None
        if ret is not None:
            error = ret.error_in_exec or ret.error_before_exec
        return Result(
            out.getvalue() if out else "",
            err.getvalue() if err else "",
            error,
            ret.result if ret is not None else None,
            internal,
            ret,
        )

    @property
    def ns(self):
        return self.shell.user_ns

    def sym(self, name):
        return self.flow.global_scope.get(name)

    def check(self, **kw):
        return self.flow.check_and_link_multiple_cells(**kw)

    def comm(self, request):
        """Send one frontend message through the comm manager; list of replies."""
        out = []

        class C:
            def send(self, resp):
                import json

                out.append(json.loads(json.dumps(resp)))

        self.flow.comm_manager.handle(request, comm=C())
        return out


ANSI = re.compile(r"\x1b\[[0-9;]*m")
