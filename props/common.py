"""Shared by the properties of the command line: trees, runs, fault placement, digests."""
import hashlib
import json
import math
import re

from sim import cli, docs, harness, kernel, simfs  # noqa: F401

FRAME = re.compile(rb'(?m)^  File "[^"]*", line .*\n(?:    .*\n)*')
LINK = re.compile(rb"\x1b\]8;id=[0-9-]+;")
REAL_CLI = ["markflow (all modules, executed from /repo's current sources)", "argparse, glob, pathlib, logging",
            "rich (console output)", "io text and buffer layers (_pyio)", "commonmark as used by rich"]
STUB_CLI = ["kernel and file system (in-memory POSIX model with durability)", "standard streams", "clock", "pids",
            "random bytes", "process scheduler"]

ERRS = {
    "open.r": ("EIO", "EMFILE", "ENFILE", "ENOMEM"),
    "open.w": ("EMFILE", "ENOSPC", "EDQUOT", "EIO", "ENOMEM", "EROFS"),
    "read": ("EIO", "ENOMEM"),
    "write": ("ENOSPC", "EDQUOT", "EIO"),
    "trunc": ("EIO",),
    "fsync": ("EIO", "ENOSPC", "EDQUOT"),
    "close.w": ("EIO", "ENOSPC", "EDQUOT"),
    "close.r": ("EIO",),
    "rename": ("EIO", "ENOSPC", "EDQUOT", "EBUSY"),
    "link": ("EIO", "ENOSPC"), "symlink": ("EIO", "ENOSPC"),
    "unlink": ("EIO", "EBUSY"),
    "mkdir": ("EIO", "ENOSPC"), "rmdir": ("EIO",),
    "stat": ("EIO", "ENOMEM"),
    "chmod": ("EIO",), "chown": ("EIO",), "utime": ("EIO",),
    "scandir": ("EIO", "EMFILE", "ENOMEM"),
    "stdin.read": ("EIO",),
    "stdout.write": ("EIO", "ENOSPC", "EPIPE"),
}
WRITING = {"open.w", "write", "trunc", "fsync", "close.w", "rename", "link", "unlink", "chmod", "chown", "utime"}


def pick_point(rng, result, writing=.75):
    """A system call of an undisturbed run to strike: mostly inside the phase that changes files."""
    counts = {}
    points = []
    for name, detail, out in result.oplog:
        counts[name] = counts.get(name, 0) + 1
        points.append((name, counts[name]))
    if not points:
        return None
    idx = [i for i, p in enumerate(points) if p[0] in WRITING]
    if idx and rng.random() < writing:
        i = rng.choice(idx)
        if rng.random() < .25:
            i = min(len(points) - 1, i + 1)
    else:
        i = rng.randrange(len(points))
    return points[i]


def error_fault(rng, point):
    name, nth = point
    errs = ERRS.get(name)
    if not errs:
        return None
    kind = "err"
    if name in ("close.w", "rename", "fsync", "unlink", "write", "close.r") and rng.random() < .15:
        kind = "err_after"
    return {"call": name, "nth": nth, "kind": kind, "errno": rng.choice(errs)}


def soft_fault(rng, result):
    """One failing, partial or interrupted operation."""
    point = pick_point(rng, result)
    r = rng.random()
    if r < .12:
        return {"call": "@enter", "nth": rng.randint(1, max(1, result.entries)),
                "kind": rng.choice(("sigint", "sigint", "memerr"))}
    if point is None:
        return None
    if r < .25:
        return {"call": point[0], "nth": point[1], "kind": rng.choice(("sigint", "sigint_after"))}
    if r < .30:
        return {"call": point[0], "nth": point[1], "kind": "memerr"}
    if r < .38:
        writes = [p for p in all_points(result) if p[0] == "write"]
        if writes:
            p = rng.choice(writes)
            return {"call": p[0], "nth": p[1], "kind": "short", "arg": byte_of(rng)}
    f = error_fault(rng, point)
    if f and rng.random() < .15:
        f["sticky"] = True
    return f


def disk_error(rng, result):
    """A disk that says it could not keep what was written."""
    points = [p for p in all_points(result) if p[0] in ("fsync", "write", "close.w")]
    points += [p for p in points if p[0] == "fsync"] * 2
    return error_fault(rng, rng.choice(points)) if points else None


def hard_fault(rng, result):
    point = pick_point(rng, result, .85)
    if point is None:
        return None
    kinds = ["kill", "kill_after"]
    if point[0] == "write":
        kinds += ["tear", "tear", "tear"]
    f = {"call": point[0], "nth": point[1], "kind": rng.choice(kinds)}
    if rng.random() < .12:
        # asked to end rather than ended
        f["kind"] = rng.choice(("sigterm", "sigterm_after", "sighup"))
    if f["kind"] == "tear":
        f["arg"] = byte_of(rng)
    return f


def byte_of(rng):
    """Where inside a write (modulo its size) something happens."""
    return rng.choice((rng.randrange(0, 50), rng.randrange(0, 400), rng.randrange(0, 400), rng.randrange(0, 1 << 21)))


def all_points(result):
    counts, out = {}, []
    for name, detail, o in result.oplog:
        counts[name] = counts.get(name, 0) + 1
        out.append((name, counts[name]))
    return out


# ------------------------------------------------------------------------------------------------ trees
def width_of(rng, inf=True):
    r = rng.random()
    if r < .6:
        return 88
    if r < .7:
        return rng.choice((rng.randint(1, 150), rng.randint(1, 150), 1, 79, 72, 1000, 5000) + ((-1, -88) if inf else ()))
    return rng.choice((20, 40, 60, 80, 100, 120, 0) if inf else (20, 40, 60, 80, 100))


def width_args(w):
    return [] if w == 88 else ["--line-length", str(w)] if w >= 0 else [f"--line-length={w}"]


def eff(w):
    return math.inf if w < 1 else w


ODD_NAMES = ("_f{}_.md", "*f{}*.md", "**f{}**.md", "<f{}>.md", "[f{}](x).md", "`f{}`.md", "f{} x.md", "f{}&amp;.md",
             "f{}\udcff.md", "\udce9f{}.md", "f{}\u00e9.md", "\u65e5{}.md", "\\f{}.md", "#f{}.md", "1. f{}.md", "~~f{}~~.md",
             "!f{}.md", "f{}.1.md", "f{}.2.md", ".f{}.md", ".f{}.md", ".f{}", "f{}.MD", "f{}.md.bak", "f{}.mdx", "f{}.md~",
             "F{}.md", "CHANGELOG{}.md", "f{}.rst", "f{}.tmp", "README{}", "f{}.markdown.md", "{{f{}}}.md", "f{}?.md", ":smile:{}.md", "[bold]{}.md", "f{}" + "x" * 90 + ".md")


ODD_DIRS = ("_x", "node_modules", "build", "dist", "venv", "__pycache__", "vendor", "target", "docs", ".h", "site-packages",
            "a b", "[d]", "d*", "\u00fc", "CHANGELOG", "test", "tmp", "d.md", "0")


def file_names(rng, n, dirs=True):
    out = []
    rich = rng.random() < .2
    for i in range(n):
        d = rng.choice(("", "", "", "d/", "d/e/", "other/")) if dirs else ""
        if dirs and rich and rng.random() < .6:
            d = "".join(rng.choice(ODD_DIRS) + "/" for _ in range(rng.choice((1, 1, 2, 3, 7))))
        ext = ".md" if rng.random() < .85 else rng.choice((".markdown", ".txt", ""))
        r = rng.random()
        if dirs and out and r < .12:
            base = rng.choice(out).rsplit("/", 1)[-1]        # the same name elsewhere
            if d + base in out:
                d = f"s{i}/"
        else:
            base = rng.choice(ODD_NAMES).format(i) if r < .24 else f"f{i}{ext}"
        out.append(d + base)
    return out


def verbosity(rng):
    r = rng.random()
    if r < .09:
        return ["-v"] * rng.choice((1, 1, 2, 3))
    if r < .16:
        return rng.choice((["-q"], ["-q"], ["--quiet"], ["-qq"], ["-q", "-q"], ["-qqq"], ["-v", "-q"], ["-vvq"], ["-vvv", "-qqqq"]))
    return []


def dress(rng, sc, files):
    """Modes, owners and groups of ordinary documents: those that the user of the run may set."""
    proc = sc["proc"]
    if rng.random() < .06:
        proc["uid"] = proc["gid"] = 0
    elif rng.random() < .12:
        proc["groups"] = [50, 51]
    for f in files:
        if rng.random() < .12:
            f["mode"] = rng.choice((0o600, 0o664, 0o640, 0o755, 0o700, 0o660, 0o2664, 0o4755, 0o622))
        if rng.random() < .5:
            if "groups" in proc:
                f["gid"] = rng.choice((50, 51))
            elif "uid" in proc:
                f["uid"], f["gid"] = rng.choice((0, 1000, 1001)), rng.choice((0, 50, 1000))


def make_tree(rng, n, good=True, extras=True, **kw):
    """[{"path","data"...}] of n documents, plus bystanders."""
    files = []
    for name in file_names(rng, n):
        d = docs.good_document(rng, **kw) if good else docs.document(rng, **kw)
        data = rng.choice(files)["data"] if files and rng.random() < .1 else cli.enc(d)
        files.append({"path": "/work/" + name, "data": data})
    if extras and rng.random() < .5:
        files.append({"path": "/work/bystander.md", "data": "*  keep\n*  me\n"})
        files.append({"path": "/work/data.bin", "data": {"b64": "AAEC/w=="}})
    return files


def rel(path, cwd="/work"):
    return path[len(cwd) + 1:] if path.startswith(cwd + "/") else path


def contents(fs, top="/work"):
    """{path: bytes} of the regular files."""
    return {p: v[7] for p, v in fs.snapshot(top).items() if v[0] == "f"}


def chain(rng, files, target, ext=".md"):
    """Adds symbolic links, one pointing at the next and the last at `target` (a path below /work); the first's path."""
    at = target
    for k in range(rng.choice((1, 2, 2, 3, 4, 6, 12, 39))):
        d = rng.choice(("", "d/", "d/e/", "ch/"))
        path = f"/work/{d}c{len(files)}{ext}"
        up = "../" * d.count("/")
        r = rng.random()
        to = up + rel(at) if r < .6 else at if r < .8 else up + "../work/" + rel(at)
        files.append({"path": path, "kind": "l", "target": to})
        at = path
    return at


def spelled(rng, path):
    """The same file named in another way."""
    r = rng.random()
    p = rel(path)
    if r < .7:
        return p
    if r < .8:
        return path
    if r < .9:
        return "./" + p
    return "../work/" + p


class Exec:
    """A scenario being executed on one machine; collects what goes into the run's log and statistics."""

    def __init__(self, sc):
        self.sc = sc
        self.run = harness.Run()
        self.fs = cli.build_fs(sc["fs"])
        self.machine = kernel.Machine(self.fs, sc.get("mseed", 0), sc.get("clock", 1_600_000_000.0))
        self.machine.tick = sc.get("tick", 0.0)
        self.clock0 = self.machine.clock
        self.h = hashlib.sha256()
        self.before = contents(self.fs)
        self.results = []

    def procs(self, specs, sched=None, switches=None):
        m = self.machine
        n0 = len(m.log)
        if sched is not None and switches is None:
            s = kernel.RandomSched(sched["seed"], sched["p"])
        else:
            s = kernel.ReplaySched(switches or [])
        res = cli.run(m, [spec(p) for p in specs], sched=s)
        self.switches = s.switches
        self.h.update(repr(m.log[n0:]).encode("utf-8", "surrogateescape"))
        for r in res:
            # stack traces that logging prints about its own failures show the simulator's frames as well
            # and rich numbers the links it draws on terminals through the life of the interpreter
            err = LINK.sub(b"", FRAME.sub(b"", r.err))
            self.h.update(repr((r.code, r.exc, r.out, err)).encode("utf-8", "surrogateescape"))
            for name, n, kind in r.fired:
                pass
            for e, fn in r.mon_fired:
                m.count_fault("async-exception")
        self.results.extend(res)
        if m.escapes:
            raise kernel.HarnessError(f"simulated process reached for the real system: {m.escapes[:3]}")
        return res

    def one(self, proc):
        return self.procs([proc])[0]

    def power_loss(self, keep, data):
        self.fs.power_loss(keep, data)
        self.machine.count_fault("power-loss")
        self.h.update(b"power")

    def finish(self, nontrivial=None):
        run, m = self.run, self.machine
        self.h.update(repr(sorted(self.fs.snapshot().items())).encode("utf-8", "surrogateescape"))
        run.digest = self.h.hexdigest()[:24]
        fired = sum(m.fault_counts.values())
        run.nontrivial = bool(fired) if nontrivial is None else nontrivial
        for k, v in m.fault_counts.items():
            run.stats["fault:" + k] += v
        run.stats["syscalls"] += len(m.log)
        run.stats["processes"] += len(self.results)
        run.stats["sim_ms"] += int((m.clock - self.clock0) * 1000) if m.clock - self.clock0 < 1e6 else 0
        run.stats["python_steps"] += sum(r.steps for r in self.results)
        if run.sample is None and run.nontrivial:
            text = json.dumps(self.sc, ensure_ascii=False)
            run.sample = {"scenario": self.sc if len(text) < 1500 else text[:1500] + "...",
                          "exit": [r.code for r in self.results], "digest": run.digest}
        return run


def argv(cmd):
    """The command line of a structured command."""
    out = list(cmd.get("opts", []))
    w = cmd.get("width", 88)
    if w != 88:
        out += width_args(w)
    if cmd.get("check"):
        out.append("--check")
    if cmd.get("outdir"):
        out += ["--output-dir", cmd["outdir"]]
    for o in cmd.get("outfiles") or []:
        out += ["--output-file", o]
    paths = list(cmd.get("paths", []))
    return paths + out if cmd.get("first", True) else out + paths


def spec(proc):
    out = {k: v for k, v in proc.items() if k != "cmd"}
    out["argv"] = argv(proc["cmd"])
    return out


ROOTCRED = (0, [0])


def node_of(fs, path, cwd="/work"):
    try:
        return fs.walk(path, fs.walk(cwd, fs.root, ROOTCRED), ROOTCRED)
    except OSError:
        return None


def targets(fs, cmd, cwd="/work"):
    """The model of what the positional arguments stand for: [(given path, inode number)] of regular files."""
    out = []
    for arg in cmd.get("paths", []):
        node = node_of(fs, arg, cwd)
        if node is None:
            continue
        if node.kind == "d":
            seen = set()

            def rec(d, prefix):
                if d.ino in seen:
                    return
                seen.add(d.ino)
                for name in sorted(d.entries):
                    if name.startswith("."):
                        continue
                    child = d.entries[name]
                    if child.kind == "l":
                        try:
                            child = fs.walk(child.target, d, ROOTCRED)
                        except OSError:
                            continue
                    if child.kind == "d":
                        rec(child, prefix + "/" + name)
                    elif child.kind == "f" and name.endswith(".md"):
                        out.append((prefix + "/" + name, child.ino))
            rec(node, arg)
        else:
            out.append((arg, node.ino))
    return out


def paths_of(fs, inos, top="/work"):
    """Names below top of the given inodes."""
    return {p for p, v in fs.snapshot(top).items() if v[5] in inos}


def is_ordinary(f, uid=1000):
    return f.get("kind", "f") == "f" and f.get("uid", 1000) == uid


def short(b, n=160):
    s = repr(b)
    return s if len(s) <= n else s[:n] + "..."


_ = simfs
