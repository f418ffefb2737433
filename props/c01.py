"""C01: a crash at any instant leaves each document with its old bytes or its complete formatted bytes."""
from sim import docs

from . import common
from .common import Exec

RUNS = {"quick": 4000, "thorough": 50000}
REAL, STUB = common.REAL_CLI, common.STUB_CLI
RULE = ("random trees of 1-4 documents formatted in place; an undisturbed dry run of the same command lists its system "
        "calls, one of which (mostly inside the writing phase) is struck: the process dies before it, after it, or in "
        "the middle of a write, and in half of the runs the machine loses power, keeping a random prefix of the "
        "directory operations and none, all, half or only the size of each file's unsynced data; non-trivial: the "
        "crash actually struck")
ASSUMES = ["an ordinary document is a regular file with one name, owned by the user, in a directory the user may write",
           "directory operations reach the disk in order; rename is atomic; fsync makes a file's data durable",
           "fault points are sampled, not enumerated"]


def gen(rng, i, tier):
    n = rng.choice((1, 1, 2, 3, 4))
    files = common.make_tree(rng, n, good=rng.random() < .85, bad=.1, crlf=.15, bigp=.12, tidy=.15)
    named = [f["path"] for f in files[:n]]
    rng.shuffle(named)
    args = [common.spelled(rng, p) for p in named]
    umask = rng.choice((0o022, 0o022, 0o022, 0o077, 0o002))
    if rng.random() < .12:
        files.append({"path": "/work/ln.md", "kind": "l", "target": common.rel(named[0])})
        args[0] = "ln.md"
    if rng.random() < .15:
        args = ["."]
    sc = {"fs": {"files": files, "listing": rng.randrange(-1, 5)}, "mseed": rng.getrandbits(30),
          "proc": {"cmd": {"paths": args, "width": common.width_of(rng), "opts": common.verbosity(rng)},
                   "umask": umask, "faults": []}}
    common.dress(rng, sc, files[:n])
    res = Exec(sc).one(sc["proc"])
    f = common.hard_fault(rng, res)
    if f is not None:
        sc["proc"]["faults"] = [f]
    if rng.random() < .5:
        sc["power"] = {"keep": rng.randrange(0, 64), "data": [rng.randrange(0, 4) for _ in range(4)]}
        if rng.random() < .12:         # the disk fails first
            f = common.disk_error(rng, res)
            if f is not None:
                sc["proc"]["faults"] = [f]
        elif rng.random() < .3:        # the machine dies some time after the run has ended on its own
            sc["proc"]["faults"] = []
    return sc


def execute(sc):
    x = Exec(sc)
    expect = predictions(x, sc["proc"]["cmd"])
    r = x.one(sc["proc"])
    if sc.get("power"):
        x.power_loss(sc["power"]["keep"], sc["power"]["data"])
    judge(x, expect)
    x.run.stats["probe:killed"] += r.killed
    return x.finish(nontrivial=r.killed or bool(sc.get("power")))


def predictions(x, cmd):
    """{path: expected outcome} of every name of the documents the command stands for."""
    named = common.paths_of(x.fs, {ino for _, ino in common.targets(x.fs, cmd)})
    return {p: docs.expected(d, common.eff(cmd.get("width", 88))) for p, d in x.before.items() if p in named}


def judge(x, expect):
    """Named documents: old or new, nothing else; other files: old.  Shared with C02."""
    after = common.contents(x.fs)
    for p, old in x.before.items():
        now = after.get(p)
        if now is None:
            x.run.problem("lost", f"{p} is gone")
        elif now == old:
            x.run.stats["probe:old-bytes"] += p in expect
        elif p not in expect:
            x.run.problem("bystander", f"{p}, not named on the command line, holds {common.short(now)}; "
                                       f"before: {common.short(old)}")
        elif expect[p][0] != "ok":
            x.run.problem("unformattable-changed", f"{p} cannot be formatted but holds {common.short(now)}; "
                                                   f"before: {common.short(old)}")
        elif now != expect[p][1]:
            x.run.problem("torn", f"{p} holds {common.short(now)}; before: {common.short(old)}, complete result: "
                                  f"{common.short(expect[p][1])}")
        else:
            x.run.stats["probe:new-bytes"] += 1
