"""The simulated operating system: processes, system calls, faults and scheduling.

Everything the command line touches outside pure computation goes through `Machine.sys`: the os.* functions,
open(), the standard streams, clocks, process ids and randomness are replaced (see patch.py) by functions that
end up here.  One call of `sys` is one step: the scheduler may run another simulated process first, the fault
plan may make the call fail, happen partly, kill the process, or strike a signal, and the call is put on the log.
"""
import _thread
import errno
import gc
import io
import os
import random
import signal
import sys
import threading
import weakref

from . import monitor, simfs

SIGNALS = {"sigint": signal.SIGINT, "sigterm": signal.SIGTERM, "sighup": signal.SIGHUP}
FD_BASE = 1 << 24
_fd_counter = FD_BASE


class SimKilled(BaseException):
    """The simulated process has been killed."""


class HarnessError(BaseException):
    """Something is wrong with the simulator, not with the code under test."""


MUTATING = {"write", "trunc", "rename", "link", "symlink", "unlink", "mkdir", "rmdir", "chmod", "chown", "utime",
            "open.w", "fsync"}


class StdIn(io.RawIOBase):
    """Standard input arriving in pieces; the plan is [size, size, ...], then end of file or an error."""

    def __init__(self, machine, proc, spec):
        self.m, self.p = machine, proc
        self.data = spec.get("data", b"")
        self.chunks = list(spec.get("chunks") or [])
        self.tty = spec.get("tty", False)
        self.pos = 0
        self.reads = 0

    def readable(self):
        return True

    def fileno(self):
        return 0

    def isatty(self):
        return self.tty

    def take(self, n):
        self.reads += 1
        if n <= 0:
            return b""
        size = self.chunks.pop(0) if self.chunks else n
        size = max(1, min(size, n))
        out = self.data[self.pos:self.pos + size]
        self.pos += len(out)
        return out

    def readinto(self, b):
        data = self.m.sys(self.p, "stdin.read", "", lambda: self.take(len(b)), shared=False)
        b[:len(data)] = data
        return len(data)


class StdOut(io.RawIOBase):
    def __init__(self, machine, proc, fd, tty=False, capacity=None):
        self.m, self.p, self.fd, self.tty, self.capacity = machine, proc, fd, tty, capacity
        self.data = bytearray()
        self.redirect = None                     # what dup2() put in place of this descriptor

    def writable(self):
        return True

    def fileno(self):
        return self.fd

    def isatty(self):
        return self.tty

    def emit(self, data, limit=None):
        data = bytes(data)
        if limit is not None:
            data = data[:limit]
        if self.capacity is not None:
            room = self.capacity - len(self.data)
            if room <= 0 and data:
                raise simfs.err(errno.ENOSPC)
            data = data[:room]
        self.data += data
        return len(data)

    def write(self, b):
        if self.redirect is not None:
            return self.redirect.write(b)
        return self.direct(b)

    def direct(self, b):
        if self.fd == 2:
            if self.p.dead:
                return len(b)
            return self.emit(b) if not self.p.stderr_broken else self._broken()
        return self.m.sys(self.p, "stdout.write", "", lambda n=None: self.emit(b, n), size=len(b), shared=False)

    def _broken(self):
        kind = self.p.stderr_broken
        raise simfs.err(getattr(errno, kind) if isinstance(kind, str) else errno.EPIPE)


class Alias:
    """A duplicate of a standard descriptor: what it stood for when it was duplicated."""
    inode = path = None
    flags = os.O_RDWR

    def __init__(self, raw):
        self.raw = raw

    def write(self, b):
        return self.raw.direct(b)


class Redirect:
    """A file in place of a standard descriptor."""

    def __init__(self, machine, proc, of):
        self.m, self.p, self.of = machine, proc, of

    def write(self, b):
        data = bytes(b)
        if isinstance(self.of, Alias):
            return self.of.write(data)
        if self.of.inode.kind == "c":
            return len(data)
        return self.m.sys(self.p, "write", self.of.path,
                          lambda n=None: self.m.fs.write(self.of, data if n is None else data[:n]), size=len(data))


class Task:
    """A thread of a simulated process; it runs only while it holds the baton."""

    def __init__(self, proc, ident):
        self.proc, self.id = proc, ident
        self.index = ident
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.done = False
        self.waiting = None
        self.deadline = None
        self.daemon = False
        self.sentinels = []


class KLock:
    """threading.Lock and RLock of simulated processes: waiting hands the baton on."""
    reentrant = False

    def __init__(self):
        self.owner, self.depth = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.depth and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            from . import patch
            p = patch.ACTIVE.get(me)
            if p is None:
                return False
            if not p.machine.wait(lambda: self.depth == 0, None if timeout is None or timeout < 0 else timeout):
                return False
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.depth == 0 or self.reentrant and self.owner != _thread.get_ident():
            raise RuntimeError("release unlocked lock" if self.depth == 0 else "cannot release un-acquired lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.depth > 0

    def _at_fork_reinit(self):
        self.owner, self.depth = None, 0

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class KRLock(KLock):
    reentrant = True

    def _is_owned(self):
        return self.depth > 0 and self.owner == _thread.get_ident()

    def _release_save(self):
        state, self.owner, self.depth = (self.owner, self.depth), None, 0
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self.owner, self.depth = state

    def _recursion_count(self):
        return self.depth if self._is_owned() else 0


class Proc:
    def __init__(self, machine, index, spec):
        self.machine, self.index, self.spec = machine, index, spec
        self.pid = 4000 + index * 7 + spec.get("pid", 0)
        self.uid = spec.get("uid", 1000)
        self.gid = spec.get("gid", 1000)
        self.cred = (self.uid, [self.gid, *spec.get("groups", ())])
        self.umask = spec.get("umask", 0o022)
        self.argv = list(spec["argv"])
        self.env = dict(spec.get("env") or {})
        self.env_reads = set()
        self.stderr_broken = spec.get("stderr_broken", False)
        self.cwd = None
        self.fds = {}
        self.nofile = spec.get("nofile")
        self.dead = False
        self.done = False
        self.pending = []                        # signals that have not been seen to yet
        self.handlers = {}
        self.sigmask = set()
        self.atexit = []
        self.tasks = []
        self.ending = False
        self.exit_code = None
        self.code = None
        self.exc = None
        self.counts = {}
        self.nsys = 0
        self.oplog = []
        self.faults = [dict(f) for f in spec.get("faults") or []]
        self.sticky = []
        self.fired = []
        strikes = {}
        for f in self.faults:
            if not isinstance(f["nth"], int) or f["kind"] in ("err", "err_after") and not hasattr(errno, f["errno"]) \
                    or f["kind"] == "ext" and not f["action"]["op"] or f["kind"] == "clock" and f["arg"] is None:
                raise KeyError("malformed fault")
            if f["call"] == "@enter":
                strikes[f["nth"]] = (lambda: self.deliver(signal.SIGINT)) if f["kind"] == "sigint" else MemoryError
        self.mon = monitor.State(limit=spec.get("steps", 12_000_000), strikes=strikes)
        self.ctx = None
        self.task = Task(self, index)

    def deliver(self, sig):
        """A signal arrives: what the interpreter does about it."""
        if sig in self.sigmask or self.machine.cur is not None and self.machine.cur is not self.task:
            self.pending.append(sig)             # the main thread will see to it
            return
        h = self.handlers.get(sig, signal.default_int_handler if sig == signal.SIGINT else signal.SIG_DFL)
        if h is signal.SIG_IGN or h == signal.SIG_IGN:
            return
        if h is signal.SIG_DFL or h == signal.SIG_DFL:
            self.dead = True
            raise SimKilled()
        h(int(sig), None)

    def deliver_pending(self):
        for sig in [x for x in self.pending if x not in self.sigmask]:
            self.pending.remove(sig)
            self.deliver(sig)

    def fd(self, fd):
        of = self.fds.get(fd)
        if of is None:
            raise simfs.err(errno.EBADF)
        return of


class Machine:
    """One simulated computer; survives crashes of its processes and, through FS, power losses."""

    def __init__(self, fs, seed=0, clock=1_600_000_000.0):
        self.fs = fs
        self.clock = clock
        fs.clock = lambda: self.clock
        self.tick = 0.0                         # how far the clock gets between two looks at it
        self.clock_jumps = []
        self.rng = random.Random(seed)
        self.procs = []
        self.log = []
        self.fault_counts = {}
        self.harness_error = None
        self.escapes = []
        self.cur = None
        self.step = 0
        self.sched = None
        self.tasks = []
        self.spawned = 0
        self.switches = []
        self.total_sys = 0
        self.max_sys = 200_000
        self.file_locks = {}

    # ------------------------------------------------------------------ scheduling
    def runnable(self):
        return [t for t in self.tasks if not t.done and (
            t.waiting is None or t.proc.dead or t.waiting() or t.deadline is not None and self.clock >= t.deadline
            or t is t.proc.task and t.proc.pending)]

    def yield_point(self, proc, shared=True):
        if len(self.tasks) < 2 or self.sched is None:
            return
        self.step += 1
        cur = self.cur
        # some calls are made while a lock of the interpreter is held that other threads of the process need
        ready = self.runnable() if shared else [t for t in self.runnable() if t is cur or t.proc is not proc]
        nxt = self.sched.choose(self, cur, ready)
        if nxt is not cur:
            self._switch(cur, nxt)

    def _switch(self, old, new):
        if old.proc is not new.proc:
            old.proc.ctx.save()
            new.proc.ctx.load()
            monitor.current = new.proc.mon
        self.cur = new
        new.lock.release()
        old.lock.acquire()

    def wait(self, ready, timeout=None):
        """The current task waits until ready() or the time is up; True if it is ready."""
        task = self.cur
        proc = task.proc
        deadline = None if timeout is None else self.clock + timeout
        while True:
            if proc.dead:
                raise SimKilled()
            if task is proc.task and proc.pending:
                proc.deliver_pending()
            if ready():
                return True
            if deadline is not None and self.clock >= deadline:
                return False
            self.total_sys += 1
            if self.total_sys > self.max_sys:
                raise monitor.StepBudget("waits")
            task.waiting, task.deadline = ready, deadline
            others = [t for t in self.runnable() if t is not task]
            if not others:
                times = [t.deadline for t in self.tasks if not t.done and t.waiting and t.deadline is not None]
                if not times:
                    task.waiting = None
                    raise monitor.StepBudget("everybody waits for ever")
                self.clock = max(self.clock, min(times))
                others = [t for t in self.runnable() if t is not task]
            if others:
                self._switch(task, self.sched.choose(self, None, others) if self.sched else others[0])
            task.waiting = task.deadline = None

    def spawn(self, proc, function, args, kwargs):
        """Another thread of a simulated process."""
        from . import patch
        self.spawned += 1
        task = Task(proc, 100 + self.spawned)
        owner = getattr(function, "__self__", None)
        task.daemon = bool(getattr(owner, "daemon", False))
        task.thread = owner
        proc.tasks.append(task)
        self.tasks.append(task)
        if self.sched is None:
            self.sched = RandomSched(self.rng.getrandbits(32), .2)
        self.count_fault("thread-started")

        def body():
            task.lock.acquire()
            ident = _thread.get_ident()
            patch.ACTIVE[ident] = proc
            patch.TASK[ident] = task
            try:
                if not proc.dead:
                    function(*args, **kwargs)
            except (SimKilled, SystemExit):
                pass
            except monitor.StepBudget as e:
                proc.exc = ("StepBudget", str(e))
                proc.exit_code = -99
                proc.dead = True
            except BaseException as e:      # noqa: BLE001
                self.harness_error = self.harness_error or f"thread: {type(e).__name__}: {e}"
                proc.dead = True
            finally:
                for lock in task.sentinels:
                    lock._at_fork_reinit()
                task.done = True
                del patch.ACTIVE[ident], patch.TASK[ident]
                ready = self.runnable()
                if proc.ending and not proc.task.done or not ready:
                    ready = [proc.task]
                nxt = self.sched.choose(self, None, ready)
                if nxt.proc is not proc:
                    proc.ctx.save()
                    nxt.proc.ctx.load()
                    monitor.current = nxt.proc.mon
                self.cur = nxt
                nxt.lock.release()
        patch.real_start_new_thread(body, ())
        return task.id

    # ------------------------------------------------------------------ the system call
    def count_fault(self, kind):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1

    def sys(self, proc, name, detail, effect, size=None, shared=True):
        """Perform one system call of `proc`.

        effect() carries it out; for writes it takes the number of bytes to write (None: all).
        """
        if proc.dead:
            raise SimKilled()
        self.yield_point(proc, shared)
        if proc.dead:
            raise SimKilled()
        if proc.pending and (self.cur is None or self.cur is proc.task):
            proc.deliver_pending()
        proc.nsys += 1
        self.total_sys += 1
        self.clock += 0.0001
        if self.total_sys > self.max_sys:
            raise monitor.StepBudget("system calls")
        n = proc.counts[name] = proc.counts.get(name, 0) + 1
        entry = [proc.index, name, detail, None]
        self.log.append(entry)
        proc.oplog.append(entry)
        todo = []
        for f in proc.faults:
            if f["call"] == name and f["nth"] == n or f["call"] == "*" and f["nth"] == proc.nsys:
                todo.append(f)
        for f in proc.sticky:
            if f["call"] in (name, "*"):
                todo.append(dict(f, again=True))
        after = None
        limit = None
        for f in todo:
            kind = f["kind"]
            if f.get("sticky") and not f.get("again"):
                proc.sticky.append(f)
            if kind in ("short", "tear"):
                if size is None or size < 2:
                    continue
                limit = 1 + f.get("arg", 0) % (size - 1)
                if kind == "tear":
                    after = f
            elif kind.endswith("_after"):
                after = f
            self.count_fault(f"{kind}:{f['errno']}" if "errno" in f else kind)
            proc.fired.append((name, n, kind))
            entry[3] = kind
            if kind == "err":
                code = getattr(errno, f["errno"])
                raise OSError(code, os.strerror(code))
            if kind == "kill":
                proc.dead = True
                raise SimKilled()
            if kind in SIGNALS:
                proc.deliver(SIGNALS[kind])
            if kind == "memerr":
                raise MemoryError()
            if kind == "ext":
                self.external(f["action"])
            if kind == "clock":
                self.clock += f["arg"]
        try:
            res = effect() if limit is None else effect(limit)
        except OSError:
            if entry[3] is None:
                entry[3] = "oserror"
            raise
        except (SimKilled, monitor.StepBudget, HarnessError):
            raise
        except BaseException as e:          # a bug in the simulator must never look like a finding
            self.harness_error = f"{name} {detail}: {type(e).__name__}: {e}"
            raise HarnessError(self.harness_error)
        if after is not None:
            kind = after["kind"]
            if kind in ("kill_after", "tear"):
                proc.dead = True
                raise SimKilled()
            if kind[:-6] in SIGNALS:
                if size is None:
                    proc.deliver(SIGNALS[kind[:-6]])
                else:
                    # a completed write is accounted for before the interpreter looks at signals
                    proc.pending.append(SIGNALS[kind[:-6]])
            if kind == "err_after":
                code = getattr(errno, after["errno"])
                raise OSError(code, os.strerror(code))
        return res

    def external(self, action):
        """Somebody else changes the file system between two system calls of the process."""
        fs = self.fs
        cred = (0, [0])
        try:
            if action["op"] == "unlink":
                fs.unlink(action["path"], fs.root, cred)
            elif action["op"] == "write":
                of = fs.open(action["path"], fs.root, cred, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644, 0)
                fs.write(of, action["data"].encode())
                of.inode.uid = of.inode.gid = 1000
            elif action["op"] == "chmod":
                fs.walk(action["path"], fs.root, cred).mode = action["mode"]
        except OSError:
            pass

    def alloc_fd(self, proc, of):
        global _fd_counter
        _fd_counter += 1
        proc.fds[_fd_counter] = of
        return _fd_counter

    # ------------------------------------------------------------------ running processes
    def run(self, specs, sched=None):
        """Run one or several processes to their end on this machine; returns the Proc objects."""
        from . import patch, procctx
        patch.install()
        self.cur = None
        self.tasks = []
        self.spawned = 0
        self.procs = [Proc(self, i, s) for i, s in enumerate(specs)]
        self.sched = None
        self.step = 0
        base = procctx.Base()
        gc_was = gc.isenabled()
        gc.disable()
        try:
            random.seed(self.rng.random())
            patch.reset_tempnames(self.rng.getrandbits(32))
            for p in self.procs:
                p.cwd = self.fs.walk(p.spec.get("cwd", "/work"), self.fs.root, (0, [0]))
                p.ctx = procctx.Context(self, p)
            monitor.enable(monitor.COUNT)
            self.sched = sched if len(specs) > 1 else None
            self.tasks = [p.task for p in self.procs]
            if len(self.procs) == 1:
                p = self.procs[0]
                self.cur = p.task
                p.ctx.load()
                patch.ACTIVE[_thread.get_ident()] = p
                monitor.current = p.mon
                try:
                    self._body(p)
                finally:
                    monitor.current = None
                    del patch.ACTIVE[_thread.get_ident()]
            else:
                self._run_many()
        finally:
            self.cur = None
            base.restore()
            if gc_was:
                gc.enable()
        if self.harness_error:
            raise HarnessError(self.harness_error)
        return self.procs

    def _run_many(self):
        from . import patch
        main = _thread.allocate_lock()
        main.acquire()
        errors = []

        def body(p):
            p.task.lock.acquire()
            patch.ACTIVE[_thread.get_ident()] = p
            try:
                self._body(p)
            except BaseException as e:      # noqa: BLE001
                errors.append(e)
            finally:
                p.done = p.task.done = True
                p.ctx.save()
                del patch.ACTIVE[_thread.get_ident()]
                rest = self.runnable() or [t for t in self.tasks if not t.done]
                if rest:
                    nxt = self.sched.choose(self, None, rest)
                    self.cur = nxt
                    nxt.proc.ctx.load()
                    monitor.current = nxt.proc.mon
                    nxt.lock.release()
                else:
                    monitor.current = None
                    main.release()
        threads = []
        for p in self.procs:
            t = threading.Thread(target=body, args=(p,), daemon=True)
            threads.append(t)
            t.start()
        first = self.sched.choose(self, None, self.runnable())
        self.cur = first
        first.proc.ctx.load()
        monitor.current = first.proc.mon
        first.lock.release()
        main.acquire()
        for t in threads:
            t.join()
        if errors:
            raise errors[0]

    def _body(self, p):
        """What the interpreter does around the program: entry point, exit status, final flushes."""
        exc = None
        finalizers = set(weakref.finalize._registry)
        try:
            try:
                try:
                    p.ctx.entry()
                    p.code = 0
                except SystemExit as e:
                    if e.code is None:
                        p.code = 0
                    elif isinstance(e.code, int):
                        p.code = e.code & 0xFF
                    else:
                        p.ctx.stderr_text(str(e.code) + "\n")
                        p.code = 1
                except KeyboardInterrupt as e:
                    p.code = 130
                    exc = e
                except (SimKilled, monitor.StepBudget, HarnessError):
                    raise
                except BaseException as e:      # noqa: BLE001 - the interpreter prints and exits with 1
                    p.code = 1
                    exc = e
                p.mon.limit = p.mon.steps + 12_000_000
                p.mon.strikes = {}
                p.pending.clear()
                p.sigmask = set(SIGNALS.values())
                if exc is not None:
                    p.exc = (type(exc).__name__, str(exc))
                    p.ctx.stderr_text(f"Traceback (most recent call last):\n{type(exc).__name__}: {exc}\n")
                    exc.__traceback__ = None
                    exc = None
                p.ctx.drop_traceback()
                if p.tasks:
                    self._finish_threads(p)
                for f, a, k in reversed(p.atexit):
                    try:
                        f(*a, **k)
                    except Exception as e:      # noqa: BLE001 - the interpreter prints it and goes on
                        p.ctx.stderr_text(f"Exception ignored in atexit callback: {type(e).__name__}: {e}\n")
                if len(self.procs) == 1:
                    for f in [f for f in weakref.finalize._registry if f not in finalizers and f.atexit]:
                        f()
                gc.collect(0)
                try:
                    if sys.stdout is not None and not sys.stdout.closed:
                        sys.stdout.flush()
                except (SimKilled, monitor.StepBudget, HarnessError):
                    raise
                except ValueError:
                    pass
                except BaseException:           # noqa: BLE001 - the interpreter reports it and exits with 120
                    p.code = 120
            except SimKilled:
                p.code = -9 if p.exit_code is None else p.exit_code
                p.dead = True
            except monitor.StepBudget as e:
                p.code = -99
                p.exc = ("StepBudget", str(e))
                p.dead = True
            except HarnessError as e:
                self.harness_error = self.harness_error or str(e)
                p.code = -98
        finally:
            p.dead = True                      # late finalizers cannot touch the machine any more
            p.ending = True
            for t in p.tasks:
                while not t.done:
                    self._switch(p.task, t)
            for of in p.fds.values():
                self.unlock(of)
            self.unlock(p)
            p.fds.clear()

    def _finish_threads(self, p):
        """The interpreter waits for the threads that are not daemons."""
        import concurrent.futures.thread as pools
        mine = [t.thread for t in p.tasks]
        for thread, q in list(pools._threads_queues.items()):
            if thread in mine:
                executor = getattr(thread, "_args", (lambda: None,))[0]()
                if executor is not None:
                    executor._shutdown = True
                q.put(None)
        self.wait(lambda: all(t.done or t.daemon for t in p.tasks))

    # ------------------------------------------------------------------ file locks
    def lock_file(self, holder, ino, how, blocking):
        """flock() (the holder is an open file) and POSIX locks (the holder is a process), on whole files."""
        held = self.file_locks.setdefault((type(holder), ino), {})

        def free():
            return all(h is holder or how == "r" and v == "r" for h, v in held.items())
        if how is None:
            held.pop(holder, None)
            return
        if not free():
            if not blocking:
                raise simfs.err(errno.EAGAIN)
            held.pop(holder, None)
            self.wait(free)
        held[holder] = how

    def unlock(self, holder):
        for (kind, _), held in self.file_locks.items():
            if kind is type(holder):
                held.pop(holder, None)


class RandomSched:
    """Seeded choice of the next process at every system call; records the switches it makes."""

    def __init__(self, seed, p):
        self.rng = random.Random(seed)
        self.p = p
        self.n = 0
        self.switches = []

    def choose(self, machine, cur, runnable):
        self.n += 1
        if cur is not None and self.rng.random() >= self.p:
            return cur
        nxt = self.rng.choice(runnable)
        if nxt is not cur and not (cur is None and nxt is runnable[0]):
            self.switches.append([self.n, nxt.index])
        return nxt


class ReplaySched:
    """Replays (or minimises) a recorded list of switches."""

    def __init__(self, switches):
        self.at = {s[0]: s[1] for s in switches}
        self.n = 0
        self.switches = [list(s) for s in switches]

    def choose(self, machine, cur, runnable):
        self.n += 1
        want = self.at.get(self.n)
        if want is not None:
            for p in runnable:
                if p.id == want:
                    return p
        return cur if cur is not None else runnable[0]
