"""What belongs to one simulated process inside the shared interpreter, and how it is swapped."""
import _thread
import io
import logging
import os
import sys

from . import loader, patch

_LEVELS = ("CRITICAL", "FATAL", "ERROR", "WARNING", "WARN", "INFO", "DEBUG", "NOTSET")


def _rich_console():
    mod = sys.modules.get("rich")
    return getattr(mod, "_console", None) if mod else None


def _set_rich_console(value):
    mod = sys.modules.get("rich")
    if mod:
        mod._console = value


class Base:
    """The harness's own interpreter state, put back after a run."""

    def __init__(self):
        self.std = (sys.stdin, sys.stdout, sys.stderr, sys.argv)
        self.handlers = list(logging.root.handlers)
        self.level = logging.root.level
        self.levels = {n: getattr(logging, n) for n in _LEVELS}
        self.env = dict(os.environ)
        self.console = _rich_console()
        self.unraisable = sys.unraisablehook
        sys.unraisablehook = lambda *a: None

    def restore(self):
        sys.stdin, sys.stdout, sys.stderr, sys.argv = self.std
        logging.root.handlers[:] = self.handlers
        logging.root.setLevel(self.level)
        for n, v in self.levels.items():
            setattr(logging, n, v)
        logging.raiseExceptions = True
        os.environ.clear()
        os.environ.update(self.env)
        _set_rich_console(self.console)
        loader.deactivate()
        sys.last_exc = None
        sys.unraisablehook = self.unraisable


_DEFAULT_ENV = {"PATH": "/usr/bin:/bin", "HOME": "/work", "TERM": "dumb", "COLUMNS": "80", "LINES": "24"}


class Context:
    def __init__(self, machine, proc):
        from .kernel import StdIn, StdOut
        spec = proc.spec
        self.proc = proc
        sin = spec.get("stdin") or {"data": b"", "tty": True}
        self.raw_in = StdIn(machine, proc, sin)
        out = spec.get("stdout") or {}
        self.raw_out = StdOut(machine, proc, 1, out.get("tty", False), out.get("capacity"))
        self.raw_err = StdOut(machine, proc, 2)
        enc = spec.get("encoding", "utf-8")
        self.stdin = io.TextIOWrapper(io.BufferedReader(self.raw_in, spec.get("inbuf", 8192)), enc, "strict")
        self.stdout = io.TextIOWrapper(io.BufferedWriter(self.raw_out, spec.get("outbuf", 8192)), enc,
                                       "strict", line_buffering=out.get("tty", False))
        self.stderr = io.TextIOWrapper(self.raw_err, enc, "backslashreplace", line_buffering=True,
                                       write_through=True)
        if spec.get("closed") == "stderr":
            self.stderr = None
        elif spec.get("closed") == "stdout":
            self.stdout = None
        elif spec.get("closed") == "stdin":
            self.stdin = None
        self.env = dict(_DEFAULT_ENV)
        self.env.update(proc.env)
        # imported under the environment the process will have
        os.environ.clear()
        os.environ.update(self.env)
        patch.ACTIVE[_thread.get_ident()] = proc
        try:
            self.modules = loader.fresh()
        finally:
            del patch.ACTIVE[_thread.get_ident()]
        if spec.get("buggify"):
            from . import buggify
            self.buggified = buggify.apply(spec["buggify"])
        else:
            self.buggified = []
        loader.deactivate()
        self.argv = ["markflow", *proc.argv]
        self.handlers = []
        self.level = logging.WARNING
        self.levels = {n: getattr(logging, n) for n in _LEVELS}
        self.console = None

    def load(self):
        self.modules.activate()
        sys.stdin, sys.stdout, sys.stderr, sys.argv = self.stdin, self.stdout, self.stderr, self.argv
        logging.root.handlers[:] = self.handlers
        logging.root.setLevel(self.level)
        for n, v in self.levels.items():
            setattr(logging, n, v)
        if dict(os.environ) != self.env:
            os.environ.clear()
            os.environ.update(self.env)
        _set_rich_console(self.console)

    def save(self):
        self.modules.save()
        self.stdin, self.stdout, self.stderr, self.argv = sys.stdin, sys.stdout, sys.stderr, sys.argv
        self.handlers = list(logging.root.handlers)
        self.level = logging.root.level
        self.levels = {n: getattr(logging, n) for n in _LEVELS}
        self.env = dict(os.environ)
        self.console = _rich_console()

    def entry(self):
        self.modules.modules[loader.PKG + ".__main__"].__main__()

    def stderr_text(self, text):
        if self.stderr is None:
            return
        try:
            self.stderr.write(text)
            self.stderr.flush()
        except (OSError, ValueError):
            pass

    def drop_traceback(self):
        sys.last_exc = None
