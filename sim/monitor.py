"""Interpreter monitoring of the code under test (sys.monitoring, Python 3.12).

Two uses: counting (a deterministic notion of progress: function entries and jumps executed), and striking
asynchronous exceptions at function entries, which is where CPython itself delivers signals.
Thread scheduling at line/instruction granularity (threads.py) uses the same tool id.
"""
import sys

from . import loader

TOOL = 3
mon = sys.monitoring
E = mon.events

_on = 0
_armed = False


class StepBudget(BaseException):
    """The code under test executed more steps than any sane run needs."""


class State:
    """Per-simulated-process (or per-call) counters; `current` is swapped by the schedulers."""
    __slots__ = ("entries", "steps", "limit", "strikes", "fired")

    def __init__(self, limit=12_000_000, strikes=None):
        self.entries = 0
        self.steps = 0
        self.limit = limit
        self.strikes = strikes or {}       # entry number -> exception factory
        self.fired = []


current = None


def _on_start(code, offset):
    st = current
    if st is None:
        return
    st.entries += 1
    st.steps += 1
    if st.strikes and st.entries in st.strikes:
        exc = st.strikes.pop(st.entries)
        if loader.in_cleanup(sys._getframe(1)):
            st.strikes[st.entries + 1] = exc         # strike as soon as the clean-up is over
        else:
            st.fired.append((st.entries, code.co_qualname))
            exc = exc()
            if exc is not None:
                raise exc
    if st.steps > st.limit:
        raise StepBudget(code.co_qualname)


def _on_jump(code, offset, dest):
    st = current
    if st is None:
        return
    st.steps += 1
    if st.steps > st.limit:
        raise StepBudget(code.co_qualname)


line_hook = None        # set by threads.py


def _on_line(code, line):
    if line_hook is not None:
        line_hook(code, line)


def _on_instr(code, offset):
    if line_hook is not None:
        line_hook(code, -offset)


def enable(events):
    """Switch on the given events for all code of the package (idempotent)."""
    global _on, _armed
    if not _armed:
        mon.use_tool_id(TOOL, "markflow-sim")
        mon.register_callback(TOOL, E.PY_START, _on_start)
        mon.register_callback(TOOL, E.JUMP, _on_jump)
        mon.register_callback(TOOL, E.LINE, _on_line)
        mon.register_callback(TOOL, E.INSTRUCTION, _on_instr)
        _armed = True
    if events == _on:
        return
    for code in loader.all_code():
        mon.set_local_events(TOOL, code, events)
    _on = events


COUNT = E.PY_START | E.JUMP
LINES = COUNT | E.LINE
INSTRS = COUNT | E.INSTRUCTION
