"""Deterministic scheduling of real threads that call the library.

Each simulated thread is a real Python thread, but only the holder of the baton runs; the scheduler decides at
every source line (or every bytecode instruction) of the package whether the baton moves.  Locks created by the
package are replaced by cooperative ones.  Logging state is shared by the threads, as in a real program, and put
back after the run.
"""
import _thread
import builtins
import concurrent.futures.thread as pools
import hashlib
import io
import logging
import queue
import random
import re
import sys
import threading
import warnings

from . import docs, kernel, loader, monitor

STRIKES = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RecursionError": RecursionError}
LEVELS = ("CRITICAL", "FATAL", "ERROR", "WARNING", "WARN", "INFO", "DEBUG", "NOTSET")

_sim = None
real_locks = real_queue = real_shutdown_lock = real_start_new_thread = real_set_sentinel = None


class Deadlock(BaseException):
    """No thread can go on."""


class SimLock:
    """threading.Lock / RLock for code of the package: blocking gives the baton to somebody else."""

    def __init__(self, reentrant=False):
        self.reentrant, self.owner, self.depth = reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout >= 0:
                return False
            if _sim is None or not _sim.block(self):
                raise Deadlock("lock held forever")
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.depth == 0 or self.reentrant and self.owner != _thread.get_ident():
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == _thread.get_ident()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class Thread:
    def __init__(self, index, ops):
        self.index, self.ops = index, ops
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.up = _thread.allocate_lock()
        self.up.acquire()
        self.done = False
        self.waiting, self.stuck = None, False
        self.mon = monitor.State(limit=1 << 60)
        self.ident = None
        self.op = -1
        self.results = []
        self.parent, self.sentinel = None, None        # of threads that the package starts


class Capture(logging.Handler):
    """The host's handler: notes which thread and operation a record came from."""

    def __init__(self, sim, level=0):
        super().__init__(level)
        self.sim = sim

    def createLock(self):
        self.lock = SimLock(True)

    def emit(self, record):
        if self.sim.stream is not None and sys.stderr is not self.sim.stream:
            return                                   # written to somewhere else
        t = self.sim.by_ident.get(_thread.get_ident())
        if all(x.done for x in self.sim.threads):
            return                                   # threads the package has left behind
        while t is not None and t.parent is not None:
            t = t.parent
        self.sim.records.append((t.index if t else -1, t.op if t else -1, record.name, record.levelno,
                                 record.levelname, record.getMessage()))


def host_state(extra=()):
    """Everything about logging that belongs to the host program."""
    out = {"constants": {n: getattr(logging, n) for n in LEVELS},
           "names": (dict(logging._levelToName), dict(logging._nameToLevel)),
           "disable": logging.root.manager.disable,
           "root": _logger_state(logging.root),
           "class": (ident(logging.getLoggerClass()), ident(logging.root.manager.loggerClass)),
           "factories": (ident(logging.getLogRecordFactory()), ident(logging.root.manager.logRecordFactory)),
           "raise": logging.raiseExceptions,
           "last resort": (ident(logging.lastResort), getattr(logging.lastResort, "level", None)),
           "warnings": (ident(warnings.showwarning), logging._warnings_showwarning is None),
           "flags": (logging.logThreads, logging.logProcesses, logging.logMultiprocessing,
                     getattr(logging, "logAsyncioTasks", None))}
    for name, lg in sorted(logging.root.manager.loggerDict.items()):
        if isinstance(lg, logging.Logger):
            out["logger " + name] = _logger_state(lg)
    return out


def ident(obj):
    return (getattr(obj, "__qualname__", type(obj).__name__), id(obj))


def _logger_state(lg):
    return (lg.level, lg.disabled, lg.propagate, type(lg).__name__,
            [ident(f) for f in lg.filters],
            [(ident(h), h.level, [ident(f) for f in h.filters], ident(h.formatter)) for h in lg.handlers
             if not (type(h) is logging.NullHandler and lg.name.split(".")[0] == loader.PKG)])


def state_diff(before, after):
    return [f"{k}: {before[k]} -> {after[k]}" for k in before if k in after and before[k] != after[k]]


class Sched:
    """Decides who holds the baton; records every switch as [step, thread]."""

    def __init__(self, spec, switches, nthreads):
        self.explicit = None
        self.switches = []
        self.n = 0
        self.hot = set()
        self.park = []
        self.rng = None
        self.gap = 0
        self.next = 1 << 60
        if switches is not None:
            self.explicit = {s[0]: s[1] for s in switches}
            self.steps = sorted(self.explicit)
            self.pos = 0
            self.next = self.steps[0] if self.steps else 1 << 60
        else:
            self.rng = random.Random(spec["seed"])
            self.mode = spec["mode"]
            if self.mode == "walk":
                self.gap = spec["gap"]
                self._draw()
            elif self.mode == "points":
                pts = sorted(self.rng.randrange(1, max(2, spec["total"])) for _ in range(spec["depth"]))
                self.points = pts
                self.next = pts.pop(0) if pts else 1 << 60
            elif self.mode == "hot":
                self.hot = {(f, ln) for f, ln in spec["sites"]}
                self.prob = spec.get("prob", .7)

    def _draw(self):
        self.next = self.n + 1 + int(self.rng.expovariate(1.0 / self.gap))

    def target(self, cur, runnable):
        """At a step that may switch: the thread to go on with."""
        if self.explicit is not None:
            want = self.explicit.get(self.n)
            while self.pos < len(self.steps) and self.steps[self.pos] <= self.n:
                self.pos += 1
            self.next = self.steps[self.pos] if self.pos < len(self.steps) else 1 << 60
            for t in runnable:
                if t.index == want:
                    return t
            return cur if cur in runnable else (runnable[0] if runnable else None)
        if self.mode == "walk":
            self._draw()
        elif self.mode == "points":
            self.next = self.points.pop(0) if self.points else 1 << 60
        others = [t for t in runnable if t is not cur]
        if not others:
            return cur if cur in runnable else None
        nxt = self.rng.choice(others)
        self.switches.append([self.n, nxt.index])
        return nxt

    def forced(self, cur, runnable):
        """The current thread cannot go on (finished or blocked)."""
        if not runnable:
            return None
        if self.explicit is not None:
            return self.target(None, runnable)
        nxt = self.rng.choice(runnable)
        if nxt is not runnable[0]:
            self.switches.append([self.n, nxt.index])
        return nxt


class Sim:
    def __init__(self, scenario):
        self.sc = dict(scenario, levels=dict(scenario.get("levels", {})))
        self.extra = []
        self.threads = [Thread(i, t["ops"]) for i, t in enumerate(scenario["threads"])]
        self.sched = Sched(scenario.get("sched"), scenario.get("switches"), len(self.threads))
        self.records = []
        self.by_ident = {}
        self.cur = None
        self.problems = []
        self.switch_count = 0
        # a call that never ends meets its own limit first, see do()
        self.limit = 8_000_000 * (4 + sum(op["op"] == "call" for t in scenario["threads"] for op in t["ops"]))
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.log = []
        self.sites = None
        self.error = None
        self.baseline = None
        self.stream = None

    # ---------------------------------------------------------------- the scheduler's hooks
    def hook(self, code, line):
        s = self.sched
        s.n += 1
        if self.sites is not None:
            k = (code.co_filename, line)
            self.sites[k] = self.sites.get(k, 0) + 1
        if s.hot and (code.co_filename, line) in s.hot and s.rng.random() < s.prob:
            s.next = s.n
        if s.n < s.next:
            if s.n > self.limit:
                raise monitor.StepBudget("steps")
            return
        if s.hot:
            s.next = 1 << 60
        cur = self.cur
        if cur is None or _thread.get_ident() != cur.ident:
            return
        try:
            nxt = s.target(cur, self.runnable())
        except RecursionError:
            return          # the decision must not be what exhausts the caller's stack
        if nxt is not None and nxt is not cur:
            self.switch(cur, nxt)

    def runnable(self):
        return [t for t in self.threads + self.extra if not t.done and not (
            t.waiting is not None and t.waiting.owner is not None and not (
                t.waiting.reentrant and t.waiting.owner == t.ident))]

    def switch(self, cur, nxt):
        self.switch_count += 1
        self.log.append((self.sched.n, nxt.index))
        self.cur = nxt
        monitor.current = nxt.mon
        nxt.lock.release()
        cur.lock.acquire()

    def block(self, lock):
        cur = self.cur
        if cur is None or _thread.get_ident() != cur.ident:
            return False
        cur.waiting = lock
        self.sched.n += 1
        nxt = self.sched.forced(cur, [t for t in self.runnable() if t is not cur])
        if nxt is None:
            return False
        self.switch(cur, nxt)
        cur.waiting = None
        return not cur.stuck

    # ---------------------------------------------------------------- what the threads do
    def do(self, t, op):
        kind = op["op"]
        if kind == "call":
            strikes = {}
            if op.get("strike"):
                strikes[op["strike"]["entry"]] = STRIKES[op["strike"]["exc"]]
            t.mon = monitor.State(limit=docs.STEP_LIMIT, strikes=strikes)
            monitor.current = t.mon
            fn = self.modules.modules[loader.PKG].reformat_markdown_text
            width = float("inf") if op.get("width", 88) == "inf" else op.get("width", 88)
            try:
                res = ("ok", fn(op["text"], width))
            except monitor.StepBudget:
                res = ("hang", "", "")
            except Deadlock:
                res = ("deadlock", "", "")
            except (kernel.HarnessError, kernel.SimKilled):
                raise
            except BaseException as e:      # noqa: BLE001
                res = ("err", type(e).__name__, str(e))
                e.__traceback__ = None
            struck = bool(t.mon.fired)
            entries, fired = t.mon.entries, list(t.mon.fired)
            t.mon = monitor.State(limit=1 << 60)
            monitor.current = t.mon
            return {"res": res, "struck": struck, "entries": entries, "at": fired}
        if kind == "log":
            # the host logs; the record must arrive once, at its own level, iff the host's settings let it through
            lg = logging.getLogger(op["logger"])
            level = getattr(logging, op["level"]) if op.get("const") else {
                "DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40}[op["level"]]
            true = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40}[op["level"]]
            before = len(self.records)
            if op.get("const"):
                lg.log(level, "host %s", op["id"])
            else:
                getattr(lg, op["level"].lower())("host %s", op["id"])
            got = [r for r in self.records[before:] if r[0] == t.index]
            due = true >= self.host_effective(op["logger"]) and true > self.sc.get("disable", 0) \
                and true >= self.sc.get("hlevel", 0)
            want = [(op["logger"], true, op["level"], f"host {op['id']}")] if due else []
            if [r[2:] for r in got] != want:
                self.problems.append(("host-record", f"the host logged {op['level']} to {op['logger']!r}; delivered: "
                                      f"{[r[2:] for r in got]}, due: {want}"))
            return {}
        if kind == "probe":
            d = state_diff(self.baseline, host_state())
            if d:
                self.problems.append(("host-state", "during calls: " + "; ".join(d)))
            return {}
        if kind == "level":
            # the host changes its mind
            logging.getLogger(op["logger"] or None).setLevel(op["level"])
            if op["logger"]:
                self.sc["levels"][op["logger"]] = op["level"]
            else:
                self.sc["root"] = op["level"]
            self.baseline = host_state()
            return {}
        if kind == "spin":
            return {}
        raise KeyError(kind)

    def host_effective(self, name):
        levels = self.sc.get("levels", {})
        while name:
            if levels.get(name):
                return levels[name]
            name = name.rpartition(".")[0]
        return self.sc.get("root", 30)

    def body(self, t):
        t.ident = _thread.get_ident()
        self.by_ident[t.ident] = t
        t.up.release()
        t.lock.acquire()
        try:
            for i, op in enumerate(t.ops):
                t.op = i
                self.step_between()
                t.results.append(self.do(t, op))
        except Deadlock:
            self.problems.append(("host-record", f"the host's {t.ops[t.op]} never returns: a lock is held forever"))
        except BaseException as e:      # noqa: BLE001
            self.error = self.error or f"{type(e).__name__}: {e}"
        finally:
            self.ended(t)

    def ended(self, t):
        t.done = True
        self.sched.n += 1
        nxt = self.sched.forced(t, self.runnable())
        if nxt is None:
            for x in self.threads + self.extra:
                if not x.done:                     # waits for a lock that whoever holds it will never release
                    nxt, x.stuck = x, True
                    break
        if nxt is None:
            self.cur = None
            monitor.current = None
            self.main.release()
        else:
            self.switch_count += 1
            self.log.append((self.sched.n, nxt.index))
            self.cur = nxt
            monitor.current = nxt.mon
            nxt.lock.release()

    # ---------------------------------------------------------------- threads of the package's own
    def spawn(self, function, args, kwargs={}):     # noqa: B006 - as the original
        cur = self.cur
        if cur is None or _thread.get_ident() != cur.ident:
            return real_start_new_thread(function, args, kwargs)
        x = Thread(len(self.threads) + len(self.extra), [])
        x.parent, x.op, x.mon = cur, cur.op, monitor.State(limit=docs.STEP_LIMIT)
        self.extra.append(x)
        real_start_new_thread(self.extra_body, (x, function, args, kwargs))
        x.up.acquire()
        return x.ident

    def extra_body(self, x, function, args, kwargs):
        x.ident = _thread.get_ident()
        self.by_ident[x.ident] = x
        x.up.release()
        x.lock.acquire()
        try:
            function(*args, **kwargs)
        except BaseException:       # noqa: BLE001
            pass
        finally:
            if x.sentinel is not None and x.sentinel.locked():
                x.sentinel.release()
            self.ended(x)

    def set_sentinel(self):
        x = self.by_ident.get(_thread.get_ident())
        if x is None or x.parent is None:
            return real_set_sentinel()
        x.sentinel = SimLock()
        return x.sentinel

    @staticmethod
    def saved_seams():
        """The harness's own processes may have other things in these places (see patch.py)."""
        global real_locks, real_queue, real_shutdown_lock, real_start_new_thread, real_set_sentinel
        real_locks = (threading.Lock, threading.RLock, threading._allocate_lock)
        real_queue, real_shutdown_lock = queue.SimpleQueue, pools._global_shutdown_lock
        real_start_new_thread, real_set_sentinel = threading._start_new_thread, threading._set_sentinel

    def patch(self):
        here = _thread.get_ident()

        def factory(real, *args):
            # (other threads of the harness, such as those that feed its queues, keep the real things)
            def make():
                me = _thread.get_ident()
                return SimLock(*args) if me == here or me in self.by_ident else real()
            return make

        def new_queue():
            return (queue._PySimpleQueue if _thread.get_ident() in self.by_ident else real_queue)()
        threading.Lock, threading._allocate_lock = factory(real_locks[0]), factory(real_locks[2])
        threading.RLock = factory(real_locks[1], True)
        queue.SimpleQueue = new_queue
        pools._global_shutdown_lock = SimLock()
        threading._start_new_thread = _thread.start_new_thread = self.spawn
        threading._set_sentinel = self.set_sentinel

    @staticmethod
    def unpatch():
        threading.Lock, threading.RLock, threading._allocate_lock = real_locks
        queue.SimpleQueue = real_queue
        pools._global_shutdown_lock = real_shutdown_lock
        threading._start_new_thread = _thread.start_new_thread = real_start_new_thread
        threading._set_sentinel = real_set_sentinel

    def step_between(self):
        """A scheduling point between two operations of a host thread."""
        s = self.sched
        s.n += 1
        if s.n >= s.next or s.hot and s.explicit is None and s.rng.random() < .5:
            nxt = s.target(self.cur, self.runnable())
            if nxt is not None and nxt is not self.cur:
                self.switch(self.cur, nxt)

    # ---------------------------------------------------------------- a whole run
    def run(self):
        global _sim
        sc = self.sc
        root = logging.root
        saved = (list(root.handlers), root.level, {n: getattr(logging, n) for n in LEVELS}, root.manager.disable,
                 logging.raiseExceptions, list(root.filters), logging.lastResort, logging.getLogRecordFactory(),
                 warnings.showwarning, logging._warnings_showwarning, logging.getLoggerClass())
        self.saved_seams()
        real_lock = logging._lock
        real_stderr = sys.stderr
        prev = loader.ModuleSet({}, {})
        prev.save()
        host_names = []
        _sim = self
        try:
            real_thread = threading.Thread
            workers = [real_thread(target=self.body, args=(t,), daemon=True) for t in self.threads]
            self.patch()
            logging._lock = SimLock(True)
            handler = Capture(self, sc.get("hlevel", 0))
            root.handlers[:] = [handler]
            loader.install()
            loader.deactivate()
            if sc.get("handlers") == "named":
                root.handlers[:] = []
                host_names = ["host", loader.PKG]
                for name in host_names:
                    logging.getLogger(name).addHandler(handler)
            if sc.get("handlers") == "stderr":
                # what the host logs goes to whatever sys.stderr is at that moment
                self.stream = sys.stderr = io.StringIO()
            root.setLevel(sc.get("root", 30))
            root.manager.disable = sc.get("disable", 0)
            root.manager._clear_cache()
            logging.getLogger("host")
            if sc.get("early"):
                for name, level in sorted(sc.get("levels", {}).items()):
                    logging.getLogger(name).setLevel(level)
            loader.reset_interpreter()
            re.purge()
            before_import = host_state()
            self.modules = loader.fresh(main=False, clean=False)
            d = state_diff(before_import, host_state())
            if d:
                self.problems.append(("host-state", "by importing the package: " + "; ".join(d)))
            for name, level in sorted(sc.get("levels", {}).items()):
                logging.getLogger(name).setLevel(level)
            for t in sc["threads"]:
                for op in t["ops"]:
                    if op["op"] == "log":
                        logging.getLogger(op["logger"])
            self.baseline = host_state()
            monitor.enable(monitor.INSTRS if sc.get("grain") == "instr" else monitor.LINES)
            monitor.line_hook = self.hook
            self.unpatch()
            for w in workers:
                w.start()
            self.patch()
            first = self.threads[0]
            s = self.sched
            s.n += 1
            if s.explicit is not None:
                first = s.target(first, self.runnable()) if s.n >= s.next else first
            else:
                first = s.rng.choice(self.threads)
                if first.index:
                    s.switches.append([s.n, first.index])
            for t in self.threads:
                t.up.acquire()                         # real threads have to come up; nothing is decided here
            self.cur = first
            monitor.current = first.mon
            first.lock.release()
            self.main.acquire()
            self.unpatch()
            for w in workers:
                w.join()
            logging._lock = real_lock
            d = state_diff(self.baseline, host_state())
            if d:
                self.problems.append(("host-state", "after the calls: " + "; ".join(d)))
        finally:
            self.unpatch()
            logging._lock = real_lock
            sys.stderr = real_stderr
            monitor.line_hook = None
            monitor.current = None
            monitor.enable(monitor.COUNT)
            _sim = None
            root.handlers[:] = saved[0]
            root.setLevel(saved[1])
            for n, v in saved[2].items():
                setattr(logging, n, v)
            root.manager.disable = saved[3]
            logging.raiseExceptions = saved[4]
            root.filters[:] = saved[5]
            logging.lastResort = saved[6]
            logging.setLogRecordFactory(saved[7])
            warnings.showwarning, logging._warnings_showwarning = saved[8], saved[9]
            logging.setLoggerClass(saved[10])
            root.manager._clear_cache()
            for name in host_names:
                lg = root.manager.loggerDict.get(name)
                if isinstance(lg, logging.Logger):
                    lg.removeHandler(handler)
            loader.deactivate()
            for n in list(root.manager.loggerDict):
                if n.startswith("host"):
                    del root.manager.loggerDict[n]
            prev.activate()
        if self.error:
            raise kernel.HarnessError(self.error)
        return self

    def call_records(self, t, op):
        return [r[2:] for r in self.records if r[0] == t and r[1] == op]

    def digest(self):
        h = hashlib.sha256()
        h.update(repr(self.log).encode())
        h.update(repr(self.records).encode())
        for t in self.threads:
            h.update(repr(t.results).encode())
        return h.hexdigest()[:24]

    def log_switches(self):
        return [list(s) for s in (self.sched.switches if self.sched.explicit is None
                                  else sorted(self.sched.explicit.items()))]

    @property
    def steps(self):
        return self.sched.n


_alone = {}


def alone(op, sc):
    """The same call as the only one in its interpreter, under the same host settings: (result, records, sites)."""
    settings = {k: sc[k] for k in ("root", "levels", "disable", "hlevel", "handlers", "early") if k in sc}
    key = repr((op["text"], op.get("width"), settings))
    if key in _alone:
        return _alone[key]
    s = Sim({"threads": [{"ops": [{k: v for k, v in op.items() if k != "strike"}]}], "switches": [],
             "root": sc.get("root", 30), "levels": sc.get("levels", {}),
             **{k: sc[k] for k in ("disable", "hlevel", "handlers", "early") if k in sc}})
    s.sites = {}
    s.run()
    if len(_alone) > 100:
        _alone.clear()
    _alone[key] = s.threads[0].results[0], s.call_records(0, 0), s.sites, s.steps
    return _alone[key]


_ = (docs, builtins)
