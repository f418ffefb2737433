"""In-memory POSIX file system with an explicit model of what is durable.

The tree lives in memory.  Every change to the name space or to file data is also put on record, so that
`power_loss` can produce the states a real machine may come back with:

* directory operations and truncations reach the disk in the order they were made (metadata journal) but any
  suffix of those made since the last barrier may be missing;
* data written and not fsync'ed may be missing, present, half present, or present as zeros with the right size;
* fsync of a file makes that file's data durable, fsync of a directory and sync() commit the journal.

Nothing in here knows about faults or scheduling; that is the kernel's business (kernel.py).
"""
import errno
import os
import stat as st_mod

BLK = 4096


def err(code, *names):
    return OSError(code, os.strerror(code), *names)


class Inode:
    __slots__ = ("ino", "kind", "mode", "uid", "gid", "nlink", "data", "entries", "target", "mtime", "ctime",
                 "dev", "synced", "pending", "parent")

    def __init__(self, ino, kind, mode, uid, gid, dev):
        self.ino, self.kind, self.mode, self.uid, self.gid, self.dev = ino, kind, mode, uid, gid, dev
        self.nlink = 1
        self.data = bytearray() if kind == "f" else None
        self.entries = {} if kind == "d" else None
        self.target = None
        self.mtime = self.ctime = 0
        self.synced = b""       # durable data
        self.pending = []       # data/truncate events since the last fsync: ("w", off, bytes) ("t", size, jidx)
        self.parent = None

    def typebits(self):
        return {"f": st_mod.S_IFREG, "d": st_mod.S_IFDIR, "l": st_mod.S_IFLNK, "c": st_mod.S_IFCHR,
                "p": st_mod.S_IFIFO}[self.kind]


class OpenFile:
    __slots__ = ("inode", "flags", "pos", "path")

    def __init__(self, inode, flags, path):
        self.inode, self.flags, self.path = inode, flags, path
        self.pos = 0


class FS:
    def __init__(self, listing_seed=0):
        self.next_ino = 2
        self.tick = 1
        self.clock = None
        self.listing_seed = listing_seed
        self.capacity = None         # remaining free bytes, None = unlimited
        self.inodes = {}
        self.journal = []            # metadata events since the last barrier
        self.root = self._new("d", 0o755, 0, 0, 1)
        self.root.parent = self.root
        self.durable_ns = None
        for name, mode, dev in (("work", 0o777, 1), ("tmp", 0o777, 2), ("dev", 0o755, 3)):
            d = self._new("d", mode, 0, 0, dev)
            d.parent = self.root
            self.root.entries[name] = d
        null = self._new("c", 0o666, 0, 0, 3)
        self.root.entries["dev"].entries["null"] = null

    # ------------------------------------------------------------------ building blocks
    def _new(self, kind, mode, uid, gid, dev):
        node = Inode(self.next_ino, kind, mode, uid, gid, dev)
        self.inodes[node.ino] = node
        self.next_ino += 1
        return node

    def now(self):
        """The time in ns by the machine's clock, with something added that makes each distinct."""
        self.tick += 1
        if self.clock is None:                    # while the tree is being built, long ago
            return (1_599_000_000 + 3607 * self.tick) * 10 ** 9 + self.tick
        return max(0, int(self.clock() * 1e6) * 1000) + self.tick

    def barrier(self):
        """Everything so far is durable (used after building the initial tree)."""
        self.journal = []
        for node in self.inodes.values():
            if node.kind == "f":
                node.synced = bytes(node.data)
                node.pending = []
        self.durable_ns = self._namespace()

    def _namespace(self):
        return {n.ino: {name: c.ino for name, c in n.entries.items()} for n in self.inodes.values()
                if n.kind == "d"}

    # ------------------------------------------------------------------ permission and path walking
    @staticmethod
    def allowed(node, cred, want):
        uid, gids = cred
        if uid == 0:
            return want != 1 or node.kind == "d" or bool(node.mode & 0o111)
        if node.uid == uid:
            bits = node.mode >> 6
        elif node.gid in gids:
            bits = node.mode >> 3
        else:
            bits = node.mode
        return (bits & 7) & want == want

    def walk(self, path, base, cred, follow=True, want_parent=False, depth=0):
        """Returns the inode, or with want_parent (parent inode, last name, inode or None)."""
        if not path:
            raise err(errno.ENOENT, path)
        cur = self.root if path.startswith("/") else base
        parts = [p for p in path.split("/") if p and p != "."]
        must_dir = path.endswith("/") or path.endswith("/.")
        if not parts:
            if want_parent:
                return cur.parent, ".", cur
            return cur
        for i, part in enumerate(parts):
            last = i == len(parts) - 1
            if cur.kind != "d":
                raise err(errno.ENOTDIR, path)
            if not self.allowed(cur, cred, 1):
                raise err(errno.EACCES, path)
            if len(part.encode("utf-8", "surrogateescape")) > 255:
                raise err(errno.ENAMETOOLONG, path)
            if part == "..":
                child = cur.parent
            else:
                child = cur.entries.get(part)
            if child is not None and child.kind == "l" and (not last or follow or must_dir):
                if depth > 40:
                    raise err(errno.ELOOP, path)
                rest = "/".join(parts[i + 1:])
                target = child.target + ("/" + rest if rest else "")
                if must_dir and not target.endswith("/"):
                    target += "/"
                return self.walk(target, cur, cred, follow, want_parent, depth + 1)
            if last:
                if must_dir and child is not None and child.kind != "d":
                    raise err(errno.ENOTDIR, path)
                if want_parent:
                    return cur, part, child
                if child is None:
                    raise err(errno.ENOENT, path)
                return child
            if child is None:
                raise err(errno.ENOENT, path)
            cur = child
        raise AssertionError

    def _need_write(self, parent, cred, path):
        if not self.allowed(parent, cred, 3):
            raise err(errno.EACCES, path)

    # ------------------------------------------------------------------ name-space operations
    def _link(self, parent, name, node):
        parent.entries[name] = node
        parent.mtime = parent.ctime = self.now()
        if node.kind == "d":
            node.parent = parent
        self.journal.append(("link", parent.ino, name, node.ino))

    def _unlink(self, parent, name):
        node = parent.entries.pop(name)
        parent.mtime = parent.ctime = self.now()
        self.journal.append(("unlink", parent.ino, name))
        node.nlink -= 1
        node.ctime = self.now()
        return node

    def _trunc(self, node, size):
        if size < len(node.data):
            self._free(len(node.data) - size)
            del node.data[size:]
        else:
            self._take(size - len(node.data), exact=True)
            node.data.extend(b"\0" * (size - len(node.data)))
        node.mtime = node.ctime = self.now()
        self.journal.append(("trunc", node.ino, size))
        node.pending.append(("t", size, len(self.journal)))

    def _free(self, n):
        if self.capacity is not None:
            self.capacity += n

    def _take(self, n, exact=False):
        """How many of n bytes the disk has room for."""
        if self.capacity is None or n <= 0:
            return n
        got = min(n, self.capacity)
        if got <= 0 or (exact and got < n):
            raise err(errno.ENOSPC)
        self.capacity -= got
        return got

    @staticmethod
    def _group(parent, cred):
        """The group of a new entry: that of a set-group-ID directory, otherwise the creator's."""
        return parent.gid if parent.mode & 0o2000 else cred[1][0]

    def open(self, path, base, cred, flags, mode, umask):
        acc = flags & os.O_ACCMODE
        follow = not (flags & os.O_NOFOLLOW) and not (flags & os.O_CREAT and flags & os.O_EXCL)
        if flags & os.O_TMPFILE == os.O_TMPFILE:
            raise err(errno.EOPNOTSUPP, path)
        parent, name, node = self.walk(path, base, cred, follow=follow, want_parent=True)
        if node is None:
            if not flags & os.O_CREAT:
                raise err(errno.ENOENT, path)
            if path.endswith("/"):
                raise err(errno.EISDIR, path)
            self._need_write(parent, cred, path)
            node = self._new("f", mode & ~umask & 0o7777, cred[0], self._group(parent, cred), parent.dev)
            node.mtime = node.ctime = self.now()
            self._link(parent, name, node)
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise err(errno.EEXIST, path)
            if node.kind == "l":
                raise err(errno.ELOOP, path)
            if node.kind == "d":
                if acc != os.O_RDONLY or flags & os.O_CREAT:
                    raise err(errno.EISDIR, path)
            elif flags & os.O_DIRECTORY:
                raise err(errno.ENOTDIR, path)
            want = {os.O_RDONLY: 4, os.O_WRONLY: 2, os.O_RDWR: 6}[acc]
            if not self.allowed(node, cred, want):
                raise err(errno.EACCES, path)
            if flags & os.O_TRUNC and node.kind == "f" and acc != os.O_RDONLY:
                self._trunc(node, 0)
        return OpenFile(node, flags, path)

    def read(self, of, n, offset=None):
        if of.inode.kind == "d":
            raise err(errno.EISDIR)
        if of.flags & os.O_ACCMODE == os.O_WRONLY:
            raise err(errno.EBADF)
        if of.inode.kind != "f":
            return b""
        pos = of.pos if offset is None else offset
        data = bytes(of.inode.data[pos:pos + n])
        if offset is None:
            of.pos += len(data)
        return data

    def write(self, of, data, offset=None):
        if of.flags & os.O_ACCMODE == os.O_RDONLY:
            raise err(errno.EBADF)
        node = of.inode
        if node.kind == "d":
            raise err(errno.EBADF)
        if node.kind != "f":
            return len(data)
        if not data:
            return 0
        pos = len(node.data) if of.flags & os.O_APPEND else (of.pos if offset is None else offset)
        grow = max(0, pos + len(data) - len(node.data))
        got = self._take(grow) if grow else 0
        if got < grow:
            data = data[:len(data) - (grow - got)]
        data = bytes(data)
        if pos > len(node.data):
            node.data.extend(b"\0" * (pos - len(node.data)))
        node.data[pos:pos + len(data)] = data
        node.pending.append(("w", pos, data))
        node.mtime = node.ctime = self.now()
        if offset is None:
            of.pos = pos + len(data)
        return len(data)

    def lseek(self, of, pos, how):
        if of.inode.kind not in "fd":
            raise err(errno.ESPIPE)
        size = len(of.inode.data) if of.inode.kind == "f" else 0
        new = {0: pos, 1: of.pos + pos, 2: size + pos}[how]
        if new < 0:
            raise err(errno.EINVAL)
        of.pos = new
        return new

    def ftruncate(self, of, size):
        if of.inode.kind != "f" or of.flags & os.O_ACCMODE == os.O_RDONLY:
            raise err(errno.EINVAL)
        self._trunc(of.inode, size)

    def truncate(self, path, base, cred, size):
        node = self.walk(path, base, cred)
        if node.kind == "d":
            raise err(errno.EISDIR, path)
        if not self.allowed(node, cred, 2):
            raise err(errno.EACCES, path)
        self._trunc(node, size)

    def fsync(self, of):
        node = of.inode
        if node.kind == "d":
            self.commit()
        elif node.kind == "f":
            self._settle(node)

    @staticmethod
    def _settle(node):
        """What has been written becomes durable, except what a failed fsync has dropped."""
        if not any(e[0] == "l" for e in node.pending):
            node.synced = bytes(node.data)
        else:
            data = bytearray(node.synced)
            for e in node.pending:
                if e[0] == "t":
                    del data[e[1]:]
                    data.extend(b"\0" * (e[1] - len(data)))
                else:
                    data.extend(b"\0" * (e[1] + len(e[2]) - len(data)))
                    if e[0] == "w":
                        data[e[1]:e[1] + len(e[2])] = e[2]
            node.synced = bytes(data)
        node.pending = []

    @staticmethod
    def fsync_failed(of):
        """The kernel forgets that these pages are dirty: the next fsync succeeds, and they never reach the disk."""
        if of.inode is not None and of.inode.kind == "f":
            of.inode.pending = [("l", *e[1:]) if e[0] == "w" else e for e in of.inode.pending]

    def commit(self):
        self.journal = []
        self.durable_ns = self._namespace()
        for node in self.inodes.values():
            if node.kind == "f":
                node.pending = [("t", e[1], 0) if e[0] == "t" else e for e in node.pending]

    def sync(self):
        for node in self.inodes.values():
            if node.kind == "f":
                self._settle(node)
        self.commit()

    def stat_node(self, node):
        size = len(node.data) if node.kind == "f" else (len(node.target) if node.kind == "l" else 4096)
        nlink = node.nlink if node.kind != "d" else 2
        base = (node.typebits() | node.mode, node.ino, node.dev, nlink, node.uid, node.gid, size,
                node.mtime // 10 ** 9, node.mtime // 10 ** 9, node.ctime // 10 ** 9)
        return os.stat_result(base, {
            "st_atime": node.mtime / 1e9, "st_mtime": node.mtime / 1e9, "st_ctime": node.ctime / 1e9,
            "st_atime_ns": node.mtime, "st_mtime_ns": node.mtime,
            "st_ctime_ns": node.ctime, "st_blksize": BLK, "st_blocks": (size + 511) // 512,
            "st_rdev": 0})

    def rename(self, src, dst, base, dst_base, cred):
        sp, sn, snode = self.walk(src, base, cred, follow=False, want_parent=True)
        if snode is None:
            raise err(errno.ENOENT, src, None, dst)
        dp, dn, dnode = self.walk(dst, dst_base, cred, follow=False, want_parent=True)
        if sp.dev != dp.dev:
            raise err(errno.EXDEV, src, None, dst)
        self._need_write(sp, cred, src)
        self._need_write(dp, cred, dst)
        if dnode is snode:
            return
        if dnode is not None:
            if dnode.kind == "d":
                if snode.kind != "d":
                    raise err(errno.EISDIR, src, None, dst)
                if dnode.entries:
                    raise err(errno.ENOTEMPTY, src, None, dst)
            elif snode.kind == "d":
                raise err(errno.ENOTDIR, src, None, dst)
            dnode.nlink -= 1
            if dnode.kind == "f" and dnode.nlink == 0:
                self._free(len(dnode.data))
        del sp.entries[sn]
        dp.entries[dn] = snode
        if snode.kind == "d":
            snode.parent = dp
        t = self.now()
        sp.mtime = dp.mtime = sp.ctime = dp.ctime = snode.ctime = t
        self.journal.append(("rename", sp.ino, sn, dp.ino, dn, snode.ino))

    def link(self, src, dst, base, dst_base, cred, follow):
        node = self.walk(src, base, cred, follow=follow)
        if node.kind == "d":
            raise err(errno.EPERM, src, None, dst)
        dp, dn, dnode = self.walk(dst, dst_base, cred, follow=False, want_parent=True)
        if dnode is not None:
            raise err(errno.EEXIST, src, None, dst)
        if node.dev != dp.dev:
            raise err(errno.EXDEV, src, None, dst)
        self._need_write(dp, cred, dst)
        node.nlink += 1
        self._link(dp, dn, node)

    def symlink(self, target, path, base, cred):
        dp, dn, dnode = self.walk(path, base, cred, follow=False, want_parent=True)
        if dnode is not None:
            raise err(errno.EEXIST, path)
        self._need_write(dp, cred, path)
        node = self._new("l", 0o777, cred[0], cred[1][0], dp.dev)
        node.target = target
        self._link(dp, dn, node)

    def unlink(self, path, base, cred):
        p, n, node = self.walk(path, base, cred, follow=False, want_parent=True)
        if node is None:
            raise err(errno.ENOENT, path)
        if node.kind == "d":
            raise err(errno.EISDIR, path)
        self._need_write(p, cred, path)
        self._unlink(p, n)
        if node.kind == "f" and node.nlink == 0:
            self._free(len(node.data))

    def mkdir(self, path, base, cred, mode, umask):
        p, n, node = self.walk(path, base, cred, follow=False, want_parent=True)
        if node is not None:
            raise err(errno.EEXIST, path)
        self._need_write(p, cred, path)
        node = self._new("d", mode & ~umask & 0o7777 | p.mode & 0o2000, cred[0], self._group(p, cred), p.dev)
        node.parent = p
        self._link(p, n, node)
        return node

    def rmdir(self, path, base, cred):
        p, n, node = self.walk(path, base, cred, follow=False, want_parent=True)
        if node is None:
            raise err(errno.ENOENT, path)
        if node.kind != "d":
            raise err(errno.ENOTDIR, path)
        if node.entries:
            raise err(errno.ENOTEMPTY, path)
        self._need_write(p, cred, path)
        self._unlink(p, n)

    def listing(self, node):
        import hashlib
        seed = self.listing_seed
        if seed == 0:
            return sorted(node.entries)
        if seed == -1:
            return sorted(node.entries, reverse=True)
        return sorted(node.entries,
                      key=lambda n: hashlib.md5(f"{seed}:{n}".encode("utf-8", "surrogateescape")).digest())

    # ------------------------------------------------------------------ building and inspecting
    def put(self, path, data=None, mode=0o644, uid=1000, gid=1000, kind="f", target=None):
        """Create a file/dir/symlink while setting up; parents are created as needed."""
        cred = (0, [0])
        parts = [p for p in path.split("/") if p]
        cur = self.root
        for part in parts[:-1]:
            nxt = cur.entries.get(part)
            if nxt is None:
                nxt = self._new("d", 0o755, uid, gid, cur.dev)
                nxt.parent = cur
                cur.entries[part] = nxt
            cur = nxt
            if cur.kind == "l":
                cur = self.walk(cur.target, self.root, cred)
        name = parts[-1]
        if kind == "d" and name in cur.entries:
            node = cur.entries[name]
            node.mode, node.uid, node.gid = mode, uid, gid
            return node
        if kind == "h":                      # hard link to target
            node = self.walk(target, self.root, cred, follow=False)
            node.nlink += 1
            cur.entries[name] = node
            return node
        node = self._new(kind, mode, uid, gid, cur.dev)
        if kind == "f":
            node.data = bytearray(data or b"")
        elif kind == "l":
            node.target = target
        elif kind == "d":
            node.parent = cur
        node.mtime = node.ctime = self.now()
        cur.entries[name] = node
        return node

    def snapshot(self, top="/work"):
        """{path: (kind, mode, uid, gid, nlink, ino, mtime, data-or-target)} of everything below top."""
        out = {}
        node = self.walk(top, self.root, (0, [0]))

        def rec(n, path):
            if n.kind == "f":
                out[path] = ("f", n.mode, n.uid, n.gid, n.nlink, n.ino, n.mtime, bytes(n.data))
            elif n.kind == "d":
                out[path] = ("d", n.mode, n.uid, n.gid, 0, n.ino, n.mtime, b"")
                for name in sorted(n.entries):
                    rec(n.entries[name], path + "/" + name)
            else:
                out[path] = (n.kind, n.mode, n.uid, n.gid, n.nlink, n.ino, n.mtime,
                             (n.target or "").encode("utf-8", "surrogateescape"))
        rec(node, top)
        return out

    # ------------------------------------------------------------------ crash
    def power_loss(self, keep, datachoice):
        """Bring the machine down and up again.

        keep: how many of the metadata operations since the last barrier survive (modulo the possible number).
        datachoice: list of small ints, one per file with unsynced data, cycled: 0 nothing of the unsynced data
        survived, 1 all of it, 2 half of it, 3 only the size (zeros).
        """
        k = keep % (len(self.journal) + 1)
        ns = {ino: dict(ent) for ino, ent in self.durable_ns.items()}
        for ev in self.journal[:k]:
            if ev[0] == "link":
                ns.setdefault(ev[1], {})[ev[2]] = ev[3]
                if self.inodes[ev[3]].kind == "d":
                    ns.setdefault(ev[3], {})
            elif ev[0] == "unlink":
                ns.get(ev[1], {}).pop(ev[2], None)
            elif ev[0] == "rename":
                ns.get(ev[1], {}).pop(ev[2], None)
                ns.setdefault(ev[3], {})[ev[4]] = ev[5]
        choices = datachoice or [0]
        c = 0
        for ino in sorted(self.inodes):
            node = self.inodes[ino]
            if node.kind != "f" or not node.pending:
                continue
            choice = choices[c % len(choices)]
            c += 1
            data = bytearray(node.synced)
            for ev in node.pending:
                if ev[0] == "t":
                    if ev[2] <= k:
                        if ev[1] < len(data):
                            del data[ev[1]:]
                        else:
                            data.extend(b"\0" * (ev[1] - len(data)))
                else:
                    how, off, buf = ev
                    if choice == 0:
                        continue
                    if choice == 2:
                        buf = buf[:len(buf) // 2]
                    if choice == 3 or how == "l":
                        buf = b"\0" * len(buf)
                    if off > len(data):
                        data.extend(b"\0" * (off - len(data)))
                    data[off:off + len(buf)] = buf
            node.data = data
        # rebuild the tree
        refs = {}
        for ino, ent in ns.items():
            node = self.inodes.get(ino)
            if node is None or node.kind != "d":
                continue
            node.entries = {name: self.inodes[child] for name, child in ent.items()}
            for child in ent.values():
                refs[child] = refs.get(child, 0) + 1
                if self.inodes[child].kind == "d":
                    self.inodes[child].parent = node
        reach = set()

        def mark(n):
            if n.ino in reach:
                return
            reach.add(n.ino)
            if n.kind == "d":
                for ch in n.entries.values():
                    mark(ch)
        mark(self.root)
        self.inodes = {i: n for i, n in self.inodes.items() if i in reach}
        for n in self.inodes.values():
            if n.kind != "d":
                n.nlink = refs.get(n.ino, 1)
        self.barrier()
