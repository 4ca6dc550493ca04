# -*- coding: utf-8 -*-
"""Reference semantics (plain Python cells) and canonical snapshots."""
import ast
import builtins
import contextlib
import io
import re
import sys
import traceback
import types

# names IPython / ipyflow put in the user namespace
_HIDE = re.compile(r"^(_+|_\d+|_i\d*|_ii|_iii|_ih|_oh|_dh|In|Out|exit|quit|open|get_ipython|__\w+__|_X5ix\w*|_Xix\w*)$")


def visible(ns, hidden=()):
    return {
        k: v
        for k, v in ns.items()
        if isinstance(k, str) and not _HIDE.match(k) and not k.startswith("_X5ix") and k not in hidden
    }


class Canon:
    """Structure-and-aliasing-preserving description of a set of values."""

    def __init__(self):
        self.seen = {}
        self.keep = []

    def __call__(self, v, depth=0):
        t = type(v)
        if v is None or t in (bool, int, float, complex, str, bytes, type(Ellipsis), type(NotImplemented), range, slice):
            return repr(v)
        if depth > 12:
            return "..."
        if id(v) in self.seen:
            return "#%d" % self.seen[id(v)]
        n = self.seen[id(v)] = len(self.seen)
        self.keep.append(v)
        r = lambda x: self(x, depth + 1)
        if t is tuple:
            return "(" + ",".join(map(r, v)) + ")"
        if isinstance(v, (list, tuple)):
            return "%d=%s[%s]" % (n, t.__name__, ",".join(r(x) for x in list.__iter__(v)) if isinstance(v, list) else ",".join(r(x) for x in tuple.__iter__(v)))
        if isinstance(v, dict):
            return "%d=%s{%s}" % (n, t.__name__, ",".join(r(k) + ":" + r(x) for k, x in dict.items(v)))
        if isinstance(v, (set, frozenset)):
            return "%d=%s{%s}" % (n, t.__name__, ",".join(sorted(repr(x) for x in v)))
        if isinstance(v, types.FunctionType):
            return "%d=<function %s %s %r %s>" % (n, v.__qualname__, r(v.__defaults__), v.__doc__, r(v.__kwdefaults__))
        if isinstance(v, types.ModuleType):
            return "<module %s>" % v.__name__
        if isinstance(v, type):
            if v.__module__ == "__main__":
                body = {
                    k: x
                    for k, x in v.__dict__.items()
                    if k not in ("__dict__", "__weakref__", "__module__", "__doc__", "__firstlineno__", "__static_attributes__")
                }
                return "%d=<class %s(%s) %s>" % (n, v.__qualname__, ",".join(b.__name__ for b in v.__mro__[1:]), ",".join(k + "=" + r(x) for k, x in body.items()))
            return "<class %s>" % v.__qualname__
        if isinstance(v, BaseException):
            return "<exc %s %s>" % (t.__name__, r(v.args))
        if isinstance(v, property):
            return "<property>"
        if isinstance(v, types.MethodType):
            return "<method %s of %s>" % (v.__name__, r(v.__self__))
        if isinstance(v, (staticmethod, classmethod)):
            return "<%s %s>" % (t.__name__, r(v.__func__))
        if t.__module__ == "__main__":
            try:
                d = dict(vars(v))
            except TypeError:
                d = {}
            return "%d=<%s %s>" % (n, t.__qualname__, ",".join(k + "=" + r(x) for k, x in d.items()))
        if t.__module__.startswith("numpy") or t.__module__.startswith("pandas"):
            return "<%s %s>" % (t.__name__, str(v))
        return "<%s>" % t.__name__


def snapshot(ns, hidden=(), names=None):
    c = Canon()
    vis = visible(ns, hidden)
    return {k: c(vis[k]) for k in sorted(vis) if names is None or k in names}


def user_frames(e):
    """(function, line) of the frames that belong to notebook cells."""
    out = []
    for f in traceback.extract_tb(e.__traceback__):
        fn = f.filename
        if f.name == "<traced_lambda>":  # where instrumented literals evaluate
            continue
        if fn.startswith("<ipython-input") or fn.startswith("<cell") or "ipykernel_" in fn or fn.startswith("<ref"):
            out.append((f.name, f.lineno))
    return out


def describe_exc(e, frames=True):
    if e is None:
        return None
    return (type(e).__name__, str(e)) + ((tuple(user_frames(e)),) if frames else ())


class RefSession:
    """Plain-Python cell semantics: exec everything, display a last expression."""

    def __init__(self):
        self.mod = types.ModuleType("__main__")
        self.ns = self.mod.__dict__
        self.ns["__builtins__"] = builtins
        self.n = 0

    def run(self, code):
        """-> (stdout, displayed text or None, exception description)"""
        from IPython.lib.pretty import pretty

        self.n += 1
        out = io.StringIO()
        shown = None
        exc = None
        prev = sys.modules.get("__main__")
        sys.modules["__main__"] = self.mod
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                try:
                    fn = "<ref-%d>" % self.n
                    tree = ast.parse(code, fn)
                    import linecache

                    linecache.cache[fn] = (len(code), None, code.splitlines(True), fn)
                    flags = ast.PyCF_ALLOW_TOP_LEVEL_AWAIT
                    last = None
                    if tree.body and isinstance(tree.body[-1], ast.Expr) and not code.rstrip().endswith(";"):
                        last = ast.Expression(tree.body.pop().value)
                    import asyncio
                    import inspect

                    def go(c):
                        r = eval(c, self.ns)
                        if c.co_flags & inspect.CO_COROUTINE:
                            r = asyncio.new_event_loop().run_until_complete(r)
                        return r

                    if tree.body:
                        go(compile(tree, fn, "exec", flags=flags))
                    if last is not None:
                        v = go(compile(last, fn, "eval", flags=flags))
                        if v is not None:
                            shown = pretty(v)
                            self.ns["_"] = v
                except BaseException as e:
                    exc = e
        finally:
            if prev is not None:
                sys.modules["__main__"] = prev
        return out.getvalue(), shown, exc


_OUT = re.compile(r"^Out\[\d+\]: ?", re.M)
_ADDR = re.compile(r"0x[0-9a-f]{6,}")


def split_display(stdout, has_error=False):
    """Separate IPython's displayed value from what the cell printed."""
    m = None
    for m in _OUT.finditer(stdout):
        pass
    if m is None:
        return stdout, None
    shown = stdout[m.end():]
    if shown.endswith("\n"):
        shown = shown[:-1]
    if shown.startswith("\n"):
        shown = shown[1:]
    printed = stdout[: m.start()]
    return printed, shown


def norm(s):
    return None if s is None else _ADDR.sub("0x", s)
