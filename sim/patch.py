"""Replaces os.*, open(), clocks and randomness by versions that serve simulated processes.

Installed once per harness process.  A call made outside any simulated process (ACTIVE has no entry for the
calling thread) goes to the real function, so the harness itself is unaffected.  A simulated process can only
reach the simulated file system; reading real files (the interpreter's, the package's) is let through, any
attempt to change something real is refused with EROFS and noted in machine.escapes.
"""
import _pyio
import _thread
import builtins
import errno
import functools
import io
import os
import random
import signal
import stat as st_mod
import sys
import tempfile
import time

from . import kernel, simfs
from .simfs import err

ACTIVE = {}          # thread -> simulated process
TASK = {}            # thread -> simulated thread (other than the first one of its process)
real = {}
real_start_new_thread = _thread.start_new_thread
_installed = False

REAL_READ = ("/opt/", "/usr/", "/lib", "/repo/", "/verif/", "/etc/", "/proc/self/", "/root/")


def _p():
    return ACTIVE.get(_thread.get_ident())


def _path(path):
    path = os.fspath(path)
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if "\0" in path:
        raise ValueError("embedded null byte")
    return path


def _is_real(path):
    from . import loader
    return path.startswith(REAL_READ) or path.startswith(loader.REPO + "/") or path == loader.REPO


def _base(p, dir_fd):
    if dir_fd is None:
        return p.cwd
    return p.fd(dir_fd).inode


def _unsupported(what):
    p = _p()
    p.machine.harness_error = f"the code under test used {what}, which the simulator does not model"
    raise kernel.HarnessError(p.machine.harness_error)


def _refuse(p, what, path):
    p.machine.escapes.append((what, path))
    raise err(errno.EROFS, path)


def route(name):
    """Decorator: fn(p, *args) serves simulated processes, the real os function everybody else."""
    def deco(fn):
        orig = getattr(os, name)
        real[name] = orig

        @functools.wraps(orig)
        def wrapper(*a, **k):
            p = ACTIVE.get(_thread.get_ident())
            if p is None:
                if a and type(a[0]) is int and a[0] >= kernel.FD_BASE and name == "close":
                    return None                  # late finalizer of an earlier run
                return orig(*a, **k)
            return fn(p, *a, **k)
        _new[name] = wrapper
        return fn
    return deco


_new = {}


def _sys(p, name, detail, effect, **kw):
    def eff(*a):
        try:
            return effect(*a)
        except OSError as e:
            if e.filename is None and kw.get("_path") is not None:
                e.filename = kw["_path"]
            raise
    size = kw.get("size")
    return p.machine.sys(p, name, detail, eff, size=size)


def _simple(name, sysname, call, arity=1):
    """Path operations: call(fs, p, path..., base, **kw)"""


# ----------------------------------------------------------------------- descriptors
@route("open")
def _open(p, path, flags, mode=0o777, *, dir_fd=None):
    path = _path(path)
    if _is_real(path):
        if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            _refuse(p, "open for writing", path)
        return real["open"](path, flags, mode)
    if path in ("/dev/stdin", "/dev/stdout", "/dev/stderr"):
        return {"/dev/stdin": 0, "/dev/stdout": 1, "/dev/stderr": 2}[path]
    if path == "/dev/null":
        return p.machine.alloc_fd(p, simfs.OpenFile(simfs.Inode(1, "c", 0o666, 0, 0, 5), flags, path))
    fs = p.machine.fs
    writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    of = _sys(p, "open.w" if writing else "open.r", path,
              lambda: _spare(p) and fs.open(path, _base(p, dir_fd), p.cred, flags, mode, p.umask), _path=path)
    return p.machine.alloc_fd(p, of)


def _spare(p):
    """The limit on open files (RLIMIT_NOFILE) of the process; the standard streams and a directory being listed count
    as four."""
    if p.nofile is not None and len(p.fds) + 4 > p.nofile:
        p.machine.count_fault("descriptor-limit")
        raise err(errno.EMFILE)
    return True


@route("close")
def _close(p, fd):
    if fd < kernel.FD_BASE:
        if fd in (0, 1, 2):
            return None
        return real["close"](fd)
    if p.dead:
        return None
    of = p.fds.pop(fd, None)
    if of is None:
        if fd <= kernel._fd_counter:
            return None                          # finalizer of an object from an earlier run
        raise err(errno.EBADF)
    if of.inode is None or of.inode.kind == "c":
        return None
    if of not in p.fds.values():
        p.machine.unlock(of)
    held = p.machine.file_locks.get((kernel.Proc, of.inode.ino))
    if held:
        held.pop(p, None)
    writable = of.flags & os.O_ACCMODE != os.O_RDONLY
    return _sys(p, "close.w" if writable else "close.r", of.path, lambda: None)


@route("read")
def _read(p, fd, n):
    if fd < kernel.FD_BASE:
        if fd == 0:
            return p.machine.sys(p, "stdin.read", "", lambda: p.ctx.raw_in.take(n), shared=False)
        return real["read"](fd, n)
    of = p.fd(fd)
    if isinstance(of, kernel.Alias):
        return p.machine.sys(p, "stdin.read", "", lambda: of.raw.take(n))
    return _sys(p, "read", of.path, lambda: p.machine.fs.read(of, n))


@route("pread")
def _pread(p, fd, n, offset):
    of = p.fd(fd)
    return _sys(p, "read", of.path, lambda: p.machine.fs.read(of, n, offset))


@route("write")
def _write(p, fd, data):
    if fd == 1:
        return p.ctx.raw_out.write(data)
    if fd == 2:
        return p.ctx.raw_err.write(data)
    if fd < kernel.FD_BASE:
        _refuse(p, "write", fd)
    of = p.fd(fd)
    data = bytes(data)
    if isinstance(of, kernel.Alias):
        return of.write(data)
    return _sys(p, "write", of.path,
                lambda n=None: p.machine.fs.write(of, data if n is None else data[:n]), size=len(data))


@route("pwrite")
def _pwrite(p, fd, data, offset):
    of = p.fd(fd)
    data = bytes(data)
    return _sys(p, "write", of.path,
                lambda n=None: p.machine.fs.write(of, data if n is None else data[:n], offset), size=len(data))


@route("writev")
def _writev(p, fd, bufs):
    return _write(p, fd, b"".join(bytes(b) for b in bufs))


@route("readv")
def _readv(p, fd, bufs):
    total = 0
    for b in bufs:
        data = _read(p, fd, len(b))
        b[:len(data)] = data
        total += len(data)
        if len(data) < len(b):
            break
    return total


@route("lseek")
def _lseek(p, fd, pos, how):
    if fd < kernel.FD_BASE:
        if fd in (0, 1, 2):
            raise err(errno.ESPIPE)
        return real["lseek"](fd, pos, how)
    if p.fd(fd).inode is None:
        raise err(errno.ESPIPE)
    return p.machine.fs.lseek(p.fd(fd), pos, how)


@route("ftruncate")
def _ftruncate(p, fd, size):
    of = p.fd(fd)
    return _sys(p, "trunc", of.path, lambda: p.machine.fs.ftruncate(of, size))


@route("truncate")
def _truncate(p, path, length):
    if isinstance(path, int):
        return _ftruncate(p, path, length)
    path = _path(path)
    if _is_real(path):
        _refuse(p, "truncate", path)
    return _sys(p, "trunc", path, lambda: p.machine.fs.truncate(path, p.cwd, p.cred, length), _path=path)


def _do_fsync(p, fd):
    if not isinstance(fd, int):
        fd = fd.fileno()
    if fd in (0, 1, 2):
        raise err(errno.EINVAL)
    of = p.fd(fd)
    if of.inode is None or of.inode.kind == "c":
        raise err(errno.EINVAL)
    try:
        return _sys(p, "fsync", of.path, lambda: p.machine.fs.fsync(of))
    except OSError:
        p.machine.fs.fsync_failed(of)
        raise


route("fsync")(_do_fsync)
route("fdatasync")(_do_fsync)


@route("sync")
def _syncall(p):
    return _sys(p, "fsync", "*", lambda: p.machine.fs.sync())


@route("fstat")
def _fstat(p, fd):
    if fd < kernel.FD_BASE:
        if fd in (0, 1, 2):
            return os.stat_result((st_mod.S_IFIFO | 0o600, fd + 1, 9, 1, p.uid, p.gid, 0, 0, 0, 0),
                                  {"st_blksize": 4096})
        return real["fstat"](fd)
    if isinstance(p.fd(fd), kernel.Alias):
        return _fstat(p, p.fd(fd).raw.fileno())
    return p.machine.fs.stat_node(p.fd(fd).inode)


@route("isatty")
def _isatty(p, fd):
    if fd == 0:
        return p.ctx.raw_in.tty
    if fd == 1:
        return p.ctx.raw_out.tty
    if fd == 2 or fd >= kernel.FD_BASE:
        return False
    return real["isatty"](fd)


@route("dup")
def _dup(p, fd):
    return p.machine.alloc_fd(p, _description(p, fd))


def _description(p, fd):
    """What a descriptor stands for now."""
    if fd >= kernel.FD_BASE:
        return p.fd(fd)
    if fd not in (0, 1, 2):
        raise err(errno.EBADF)
    raw = (p.ctx.raw_in, p.ctx.raw_out, p.ctx.raw_err)[fd]
    redirect = getattr(raw, "redirect", None)
    return redirect.of if redirect is not None else kernel.Alias(raw)


@route("dup2")
def _dup2(p, fd, fd2, inheritable=True):
    of = _description(p, fd)
    if fd2 >= kernel.FD_BASE:
        p.fds[fd2] = of
    elif fd2 in (1, 2):
        raw = (p.ctx.raw_out, p.ctx.raw_err)[fd2 - 1]
        same = isinstance(of, kernel.Alias) and of.raw is raw
        raw.redirect = None if same else kernel.Redirect(p.machine, p, of)
    elif fd2 == 0:
        _unsupported("os.dup2 onto standard input")
    else:
        _refuse(p, "dup2", fd2)
    return fd2


@route("set_inheritable")
def _set_inh(p, fd, flag):
    return None


@route("get_inheritable")
def _get_inh(p, fd):
    return False


@route("set_blocking")
def _set_blk(p, fd, flag):
    return None


@route("posix_fallocate")
def _fallocate(p, fd, offset, length):
    of = p.fd(fd)

    def eff():
        if of.inode is None or of.inode.kind != "f":
            raise err(errno.ENODEV)
        if of.flags & os.O_ACCMODE == os.O_RDONLY:
            raise err(errno.EBADF)
        if length <= 0 or offset < 0:
            raise err(errno.EINVAL)
        if offset + length > len(of.inode.data):
            p.machine.fs.ftruncate(of, offset + length)
    return _sys(p, "trunc", of.path, eff)


@route("posix_fadvise")
def _fadvise(p, fd, offset, length, advice):
    return None


@route("sendfile")
def _sendfile(p, *a, **k):
    raise err(errno.EINVAL)


@route("copy_file_range")
def _cfr(p, *a, **k):
    raise err(errno.EXDEV)


@route("fchmod")
def _fchmod(p, fd, mode):
    of = p.fd(fd)
    return _sys(p, "chmod", of.path, lambda: _setmode(p, of.inode, mode))


@route("fchown")
def _fchown(p, fd, uid, gid):
    of = p.fd(fd)
    return _sys(p, "chown", of.path, lambda: _setown(p, of.inode, uid, gid))


# ----------------------------------------------------------------------- paths
def _setmode(p, node, mode):
    if p.uid not in (0, node.uid):
        raise err(errno.EPERM)
    node.mode = mode & 0o7777
    node.ctime = p.machine.fs.now()


def _setown(p, node, uid, gid):
    uid = node.uid if uid in (-1, None) else uid
    gid = node.gid if gid in (-1, None) else gid
    if p.uid != 0 and (uid != node.uid or p.uid != node.uid or gid not in (*p.cred[1], node.gid)):
        raise err(errno.EPERM)
    node.uid, node.gid = uid, gid
    if node.kind == "f":
        # as Linux does, for root as well
        node.mode &= ~0o4000 if not node.mode & 0o010 else ~0o6000
    node.ctime = p.machine.fs.now()


@route("stat")
def _stat(p, path, *, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int):
        return _fstat(p, path)
    path = _path(path)
    if _is_real(path):
        return real["stat"](path, follow_symlinks=follow_symlinks)
    fs = p.machine.fs
    return _sys(p, "stat", path,
                lambda: fs.stat_node(fs.walk(path, _base(p, dir_fd), p.cred, follow=follow_symlinks)),
                _path=path)


@route("lstat")
def _lstat(p, path, *, dir_fd=None):
    return _stat(p, path, dir_fd=dir_fd, follow_symlinks=False)


@route("access")
def _access(p, path, mode, *, dir_fd=None, effective_ids=False, follow_symlinks=True):
    path = _path(path)
    if _is_real(path):
        return real["access"](path, mode)
    fs = p.machine.fs

    def eff():
        try:
            node = fs.walk(path, _base(p, dir_fd), p.cred, follow=follow_symlinks)
        except OSError:
            return False
        return fs.allowed(node, p.cred, mode) if mode else True
    return _sys(p, "access", path, eff)


@route("readlink")
def _readlink(p, path, *, dir_fd=None):
    path = _path(path)
    if _is_real(path):
        return real["readlink"](path)
    fs = p.machine.fs

    def eff():
        node = fs.walk(path, _base(p, dir_fd), p.cred, follow=False)
        if node.kind != "l":
            raise err(errno.EINVAL, path)
        return node.target
    return _sys(p, "stat", path, eff, _path=path)


@route("chmod")
def _chmod(p, path, mode, *, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int):
        return _fchmod(p, path, mode)
    path = _path(path)
    if _is_real(path):
        _refuse(p, "chmod", path)
    fs = p.machine.fs
    return _sys(p, "chmod", path, lambda: _setmode(
        p, fs.walk(path, _base(p, dir_fd), p.cred, follow=follow_symlinks), mode), _path=path)


@route("lchown")
def _lchown(p, path, uid, gid):
    return _chown(p, path, uid, gid, follow_symlinks=False)


@route("chown")
def _chown(p, path, uid, gid, *, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int):
        return _fchown(p, path, uid, gid)
    path = _path(path)
    if _is_real(path):
        _refuse(p, "chown", path)
    fs = p.machine.fs
    return _sys(p, "chown", path, lambda: _setown(
        p, fs.walk(path, _base(p, dir_fd), p.cred, follow=follow_symlinks), uid, gid), _path=path)


@route("utime")
def _utime(p, path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int):
        of = p.fd(path)
        path, find = of.path, lambda: of.inode
    else:
        path = _path(path)
        if _is_real(path):
            _refuse(p, "utime", path)
        find = lambda: p.machine.fs.walk(path, _base(p, dir_fd), p.cred, follow=follow_symlinks)  # noqa: E731

    def eff():
        node = find()
        if ns is not None:
            node.mtime = int(ns[1])
        elif times is not None:
            node.mtime = int(times[1] * 1e9)
        else:
            node.mtime = p.machine.fs.now()
    return _sys(p, "utime", path, eff, _path=path)


def _two(name, method):
    def fn(p, src, dst, *, src_dir_fd=None, dst_dir_fd=None, **kw):
        src, dst = _path(src), _path(dst)
        if _is_real(src) or _is_real(dst):
            _refuse(p, name, dst)
        bases = (_base(p, src_dir_fd), _base(p, dst_dir_fd))
        return _sys(p, method[0], f"{src} -> {dst}", lambda: method[1](p, src, dst, bases, kw), _path=src)
    route(name)(fn)


_two("rename", ("rename", lambda p, s, d, b, kw: p.machine.fs.rename(s, d, *b, p.cred)))
_two("replace", ("rename", lambda p, s, d, b, kw: p.machine.fs.rename(s, d, *b, p.cred)))
_two("link", ("link", lambda p, s, d, b, kw: p.machine.fs.link(s, d, *b, p.cred,
                                                                 kw.get("follow_symlinks", True))))


@route("symlink")
def _symlink(p, src, dst, target_is_directory=False, *, dir_fd=None):
    src, dst = _path(src), _path(dst)
    if _is_real(dst):
        _refuse(p, "symlink", dst)
    return _sys(p, "symlink", dst, lambda: p.machine.fs.symlink(src, dst, _base(p, dir_fd), p.cred), _path=dst)


def _do_unlink(p, path, *, dir_fd=None):
    path = _path(path)
    if _is_real(path):
        _refuse(p, "unlink", path)
    return _sys(p, "unlink", path, lambda: p.machine.fs.unlink(path, _base(p, dir_fd), p.cred), _path=path)


route("unlink")(_do_unlink)
route("remove")(_do_unlink)


@route("mkdir")
def _mkdir(p, path, mode=0o777, *, dir_fd=None):
    path = _path(path)
    if _is_real(path):
        _refuse(p, "mkdir", path)
    return _sys(p, "mkdir", path,
                lambda: p.machine.fs.mkdir(path, _base(p, dir_fd), p.cred, mode, p.umask) and None, _path=path)


@route("rmdir")
def _rmdir(p, path, *, dir_fd=None):
    path = _path(path)
    if _is_real(path):
        _refuse(p, "rmdir", path)
    return _sys(p, "rmdir", path, lambda: p.machine.fs.rmdir(path, _base(p, dir_fd), p.cred), _path=path)


class DirEntry:
    __slots__ = ("name", "path", "_node", "_p")

    def __init__(self, p, node, name, path):
        self.name, self.path, self._node, self._p = name, path, node, p

    def __fspath__(self):
        return self.path

    def _target(self, follow):
        if self._node.kind == "l" and follow:
            fs = self._p.machine.fs
            try:
                return fs.walk(self._node.target, self._parent(), self._p.cred)
            except OSError:
                return None
        return self._node

    def _parent(self):
        fs = self._p.machine.fs
        d = os.path.dirname(self.path)
        return fs.walk(d, self._p.cwd, self._p.cred) if d else self._p.cwd

    def is_dir(self, *, follow_symlinks=True):
        t = self._target(follow_symlinks)
        return t is not None and t.kind == "d"

    def is_file(self, *, follow_symlinks=True):
        t = self._target(follow_symlinks)
        return t is not None and t.kind == "f"

    def is_symlink(self):
        return self._node.kind == "l"

    def is_junction(self):
        return False

    def inode(self):
        return self._node.ino

    def stat(self, *, follow_symlinks=True):
        return _stat(self._p, self.path, follow_symlinks=follow_symlinks)

    def __repr__(self):
        return f"<DirEntry {self.name!r}>"


class ScanIter:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._it = iter(())


@route("scandir")
def _scandir(p, path="."):
    bytes_mode = False
    if isinstance(path, int):
        of = p.fd(path)
        node, shown = of.inode, ""
        detail = of.path

        def find():
            return node
    else:
        if isinstance(path, bytes):
            bytes_mode = True
        shown = _path(path)
        if _is_real(shown):
            return real["scandir"](path)
        detail = shown

        def find():
            return p.machine.fs.walk(shown, p.cwd, p.cred)
    if bytes_mode:
        _unsupported("scandir on bytes")
    fs = p.machine.fs

    def eff():
        d = find()
        if d.kind != "d":
            raise err(errno.ENOTDIR, detail)
        if not fs.allowed(d, p.cred, 4):
            raise err(errno.EACCES, detail)
        return [DirEntry(p, d.entries[n], n, os.path.join(shown, n) if shown else n) for n in fs.listing(d)]
    return ScanIter(_sys(p, "scandir", detail, eff, _path=detail))


@route("listdir")
def _listdir(p, path="."):
    if not isinstance(path, int) and _is_real(_path(path)):
        return real["listdir"](path)
    return [e.name for e in _scandir(p, path)]


@route("statvfs")
def _statvfs(p, path):
    cap = p.machine.fs.capacity
    blocks = (1 << 20) if cap is None else cap // 4096
    return os.statvfs_result((4096, 4096, 1 << 21, blocks, blocks, 1 << 20, 1 << 19, 1 << 19, 0, 255))


for _n in ("getxattr", "setxattr", "removexattr", "listxattr"):
    def _xattr(p, *a, **k):
        raise err(errno.ENOTSUP)
    route(_n)(_xattr)


# ----------------------------------------------------------------------- process attributes
@route("getcwd")
def _getcwd(p):
    parts = []
    node = p.cwd
    while node is not p.machine.fs.root:
        for name, child in node.parent.entries.items():
            if child is node:
                parts.append(name)
                break
        else:
            raise err(errno.ENOENT)
        node = node.parent
    return "/" + "/".join(reversed(parts))


@route("chdir")
def _chdir(p, path):
    node = p.machine.fs.walk(_path(path), p.cwd, p.cred)
    if node.kind != "d":
        raise err(errno.ENOTDIR, path)
    p.cwd = node


@route("umask")
def _umask(p, mask):
    old, p.umask = p.umask, mask & 0o777
    return old


for _n, _v in (("getpid", lambda p: p.pid), ("getppid", lambda p: 3999), ("getuid", lambda p: p.uid),
               ("geteuid", lambda p: p.uid), ("getgid", lambda p: p.gid), ("getegid", lambda p: p.gid),
               ("getgroups", lambda p: list(p.cred[1]))):
    route(_n)(_v)


@route("urandom")
def _urandom(p, n):
    return p.machine.rng.randbytes(n)


@route("get_terminal_size")
def _gts(p, fd=1):
    if not p.ctx.raw_out.tty:
        raise err(errno.ENOTTY)
    return os.terminal_size((int(p.env.get("COLUMNS", "80")), 24))


@route("_exit")
def _exit(p, n):
    p.exit_code = n & 0xFF
    p.dead = True
    raise kernel.SimKilled()


@route("abort")
def _abort(p):
    _exit(p, 134)


@route("kill")
def _kill(p, pid, sig):
    if pid != p.pid:
        _unsupported("os.kill of another process")
    if sig == signal.SIGKILL:
        _exit(p, 137)
    elif sig:
        p.deliver(signal.Signals(sig))


for _n in ("system", "popen", "fork", "execv", "execve", "posix_spawn", "posix_spawnp", "killpg",
           "mkfifo", "mknod", "chroot", "pipe", "forkpty", "openpty"):
    def _no(p, *a, _n=_n, **k):
        _unsupported("os." + _n)
    route(_n)(_no)


class Environ(os._Environ):
    """os.environ that notes which variables a simulated process asks for."""

    def __getitem__(self, key):
        p = _p()
        if p is not None and isinstance(key, str):
            p.env_reads.add(key)
        return super().__getitem__(key)


# ----------------------------------------------------------------------- installation
def _names():
    rng = random.Random(_names.seed)
    while True:
        yield "".join(rng.choices("abcdefghijklmnopqrstuvwxyz0123456789_", k=8))


_names.seed = 0


class _TempNames:
    def __iter__(self):
        return self

    def __next__(self):
        return next(_TempNames.gen)


_TempNames.gen = _names()


def reset_tempnames(seed):
    _names.seed = seed
    _TempNames.gen = _names()
    tempfile._name_sequence = _TempNames()
    tempfile.tempdir = None


def install():
    global _installed
    if _installed:
        return
    _installed = True
    os.environ.__class__ = Environ
    for name, fn in _new.items():
        setattr(os, name, fn)
        for group in ("supports_follow_symlinks", "supports_fd", "supports_effective_ids"):
            s = getattr(os, group)
            if real[name] in s:
                s.add(fn)
    # dir_fd stays "unsupported" so that the standard library takes its plain path-based branches
    os.supports_dir_fd.clear()
    real_open = builtins.open

    @functools.wraps(real_open)
    def sim_open(file, *a, **k):
        p = ACTIVE.get(_thread.get_ident())
        if p is None:
            return real_open(file, *a, **k)
        if not isinstance(file, int):
            path = _path(file)
            if _is_real(path):
                mode = a[0] if a else k.get("mode", "r")
                if any(c in mode for c in "wax+"):
                    _refuse(p, "open for writing", path)
                return real_open(file, *a, **k)
        return _pyio.open(file, *a, **k)
    builtins.open = sim_open
    io.open = sim_open
    real_fileio = io.FileIO

    def sim_fileio(file, *a, **k):
        if ACTIVE.get(_thread.get_ident()) is None:
            return real_fileio(file, *a, **k)
        return _pyio.FileIO(file, *a, **k)
    io.FileIO = sim_fileio
    import shutil
    shutil._USE_CP_SENDFILE = False

    real_time = {n: getattr(time, n) for n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter",
                                               "perf_counter_ns", "sleep", "process_time", "process_time_ns", "thread_time",
                                               "thread_time_ns")}

    def clock(n, conv):
        def f(*a):
            p = ACTIVE.get(_thread.get_ident())
            if p is None:
                return real_time[n](*a)
            return conv(p.machine, *a)
        return f

    def reads(m):
        m.clock += m.tick                   # somebody else had the processor meanwhile
        return m.clock

    def sleep(m, s):
        if len(m.tasks) > 1 and m.cur is not None:
            m.wait(lambda: False, s)
        else:
            m.clock += s
    for n in ("time", "monotonic", "perf_counter", "process_time", "thread_time"):
        setattr(time, n, clock(n, reads))
        setattr(time, n + "_ns", clock(n + "_ns", lambda m: int(reads(m) * 1e9)))
    time.sleep = clock("sleep", sleep)

    def of_now(n):
        real = getattr(time, n)
        at = 1 if n == "strftime" else 0

        def f(*a):
            p = ACTIVE.get(_thread.get_ident())
            if p is not None and (len(a) == at or a[at:] == (None,) and n != "strftime"):
                now = reads(p.machine)
                return real(a[0], time.localtime(now)) if at else real(time.localtime(now) if n == "asctime" else now)
            return real(*a)
        return f
    for n in ("localtime", "gmtime", "ctime", "asctime", "strftime"):
        setattr(time, n, of_now(n))
    import datetime as dt
    real_dt = dt.datetime

    class Meta(type):
        def __instancecheck__(cls, obj):
            return isinstance(obj, real_dt)

        def __subclasscheck__(cls, c):
            return issubclass(c, real_dt)

    class SimDatetime(real_dt, metaclass=Meta):
        def __new__(cls, *a, **k):
            return real_dt(*a, **k)

        @classmethod
        def now(cls, tz=None):
            return real_dt.now(tz) if ACTIVE.get(_thread.get_ident()) is None else real_dt.fromtimestamp(time.time(), tz)

        @classmethod
        def utcnow(cls):
            return real_dt.utcnow() if ACTIVE.get(_thread.get_ident()) is None else real_dt.utcfromtimestamp(time.time())
    SimDatetime.__name__ = SimDatetime.__qualname__ = "datetime"
    dt.datetime = SimDatetime
    random._urandom = os.urandom
    enc_real = _pyio.TextIOWrapper._get_locale_encoding

    def locale_encoding(self):
        p = ACTIVE.get(_thread.get_ident())
        return enc_real(self) if p is None else p.spec.get("encoding", "utf-8")
    _pyio.TextIOWrapper._get_locale_encoding = locale_encoding
    _pyio.text_encoding = lambda encoding, stacklevel=2: "locale" if encoding is None else encoding
    import linecache
    update = linecache.updatecache
    linecache.updatecache = lambda *a, **k: update(*a, **k) if _p() is None else []
    linecache.checkcache = lambda *a, **k: None
    _forbid_programs()
    _patch_mmap()
    _patch_threads()
    import warnings
    warnings.simplefilter("ignore", ResourceWarning)
    # import now what runs import lazily, so that no import happens inside a simulated process
    import fcntl  # noqa: F401
    import secrets  # noqa: F401
    import traceback  # noqa: F401
    import uuid  # noqa: F401
    import rich.console  # noqa: F401
    import rich.logging  # noqa: F401
    import rich.markdown  # noqa: F401
    _patch_locks(fcntl)
    _patch_signals()


def _patch_mmap():
    """Read-only maps of simulated files; a map is filled when it is made (nobody sees a later change of the file)."""
    import mmap
    real_mmap = mmap.mmap

    class SimMmap(real_mmap):
        def __new__(cls, fileno, length, *a, **k):
            p = _p()
            if p is None or not kernel.FD_BASE <= fileno:
                return super().__new__(cls, fileno, length, *a, **k)
            if set(k) - {"access", "offset"} or a or k.get("access") not in (mmap.ACCESS_READ, mmap.ACCESS_COPY):
                _unsupported("a shared or writable memory map")
            of = p.fd(fileno)
            if of.inode is None or of.inode.kind != "f":
                raise err(errno.ENODEV)
            offset = k.get("offset", 0)
            data = _sys(p, "read", of.path, lambda: bytes(of.inode.data[offset:]))
            if length > len(data):
                raise ValueError("mmap length is greater than file size")
            if not data:
                raise ValueError("cannot mmap an empty file")
            self = super().__new__(cls, -1, length or len(data))
            self.write(data[:length or len(data)])
            self.seek(0)
            return self
    mmap.mmap = SimMmap


def _forbid_programs():
    import subprocess
    init = subprocess.Popen.__init__

    def sim_init(self, *a, **k):
        if _p() is not None:
            _unsupported("subprocesses")
        return init(self, *a, **k)
    subprocess.Popen.__init__ = sim_init


def _patch_threads():
    """Threads of simulated processes are tasks of the simulator; what they wait for is known to it."""
    import concurrent.futures.thread as pools
    import queue
    import threading
    real_queue, real_sentinel = queue.SimpleQueue, threading._set_sentinel

    def factory(orig, cls):
        return lambda: orig() if _p() is None else cls()
    threading.Lock = threading._allocate_lock = _pyio.Lock = factory(threading.Lock, kernel.KLock)
    threading.RLock = factory(threading.RLock, kernel.KRLock)
    queue.SimpleQueue = factory(real_queue, queue._PySimpleQueue)
    pools._global_shutdown_lock = kernel.KLock()

    def start_new_thread(function, args, kwargs={}):    # noqa: B006 - as the original
        p = _p()
        return real_start_new_thread(function, args, kwargs) if p is None else \
            p.machine.spawn(p, function, args, kwargs)
    threading._start_new_thread = _thread.start_new_thread = start_new_thread

    def set_sentinel():
        if _p() is None:
            return real_sentinel()
        lock = kernel.KLock()
        task = TASK.get(_thread.get_ident())
        if task is not None:
            task.sentinels.append(lock)
        return lock
    threading._set_sentinel = set_sentinel


def _patch_locks(fcntl):
    real_flock, real_lockf, real_fcntl = fcntl.flock, fcntl.lockf, fcntl.fcntl

    def how(cmd):
        kind = cmd & (fcntl.LOCK_SH | fcntl.LOCK_EX | fcntl.LOCK_UN)
        return None if kind == fcntl.LOCK_UN else "r" if kind == fcntl.LOCK_SH else "w"

    def lock(p, fd, cmd, holder):
        if not isinstance(fd, int):
            fd = fd.fileno()
        of = p.fd(fd)
        if of.inode is None or of.inode.kind == "c":
            return None
        # not an event of its own in the fault plans, but others may run here
        p.machine.yield_point(p)
        if p.dead:
            raise kernel.SimKilled()
        return p.machine.lock_file(of if holder is None else holder, of.inode.ino, how(cmd), not cmd & fcntl.LOCK_NB)

    def flock(fd, operation):
        p = _p()
        return real_flock(fd, operation) if p is None else lock(p, fd, operation, None)

    def lockf(fd, cmd, *a):
        p = _p()
        return real_lockf(fd, cmd, *a) if p is None else lock(p, fd, cmd, p)

    def fcntl_(fd, cmd, arg=0):
        p = _p()
        if p is None:
            return real_fcntl(fd, cmd, arg)
        if cmd in (fcntl.F_GETFD, fcntl.F_SETFD, fcntl.F_GETFL, fcntl.F_SETFL):
            return 0
        if cmd == getattr(fcntl, "F_FULLFSYNC", None):
            return os.fsync(fd)
        _unsupported("fcntl")
    fcntl.flock, fcntl.lockf, fcntl.fcntl = flock, lockf, fcntl_


def _patch_signals():
    import atexit
    real_ = {n: getattr(signal, n) for n in ("signal", "getsignal", "raise_signal", "pthread_sigmask", "siginterrupt",
                                             "set_wakeup_fd", "alarm", "setitimer", "sigpending")}

    def default(sig):
        return signal.default_int_handler if sig == signal.SIGINT else signal.SIG_DFL

    def set_handler(p, sig, handler):
        if p.machine.cur is not None and p.machine.cur is not p.task:
            raise ValueError("signal only works in main thread of the main interpreter")
        old = p.handlers.get(signal.Signals(sig), default(sig))
        p.handlers[signal.Signals(sig)] = handler
        return old

    def mask(p, how, signals):
        old = set(p.sigmask)
        signals = {signal.Signals(s) for s in signals}
        if how == signal.SIG_BLOCK:
            p.sigmask |= signals
        elif how == signal.SIG_UNBLOCK:
            p.sigmask -= signals
        else:
            p.sigmask = signals
        p.deliver_pending()
        return old
    sims = {"signal": set_handler, "getsignal": lambda p, sig: p.handlers.get(signal.Signals(sig), default(sig)),
            "raise_signal": lambda p, sig: p.deliver(signal.Signals(sig)), "pthread_sigmask": mask,
            "siginterrupt": lambda p, *a: None, "set_wakeup_fd": lambda p, *a, **k: -1,
            "alarm": lambda p, *a: _unsupported("alarms"), "setitimer": lambda p, *a: _unsupported("timers"),
            "sigpending": lambda p: set(p.pending)}
    for n, fn in sims.items():
        def f(*a, _n=n, _fn=fn, **k):
            p = _p()
            return real_[_n](*a, **k) if p is None else _fn(p, *a, **k)
        setattr(signal, n, f)
    real_register, real_unregister = atexit.register, atexit.unregister

    def register(func, *a, **k):
        p = _p()
        if p is None:
            return real_register(func, *a, **k)
        p.atexit.append((func, a, k))
        return func

    def unregister(func):
        p = _p()
        if p is None:
            return real_unregister(func)
        p.atexit[:] = [e for e in p.atexit if e[0] != func]
    atexit.register, atexit.unregister = register, unregister


_ = sys
