"""C02: failing or partial system calls and interrupts never cost a document."""
from . import c01, common
from .common import Exec

RUNS = {"quick": 4000, "thorough": 50000}
REAL, STUB = common.REAL_CLI, common.STUB_CLI
RULE = ("random trees of 1-4 documents formatted in place; a dry run lists the command's system calls and function "
        "entries, then 1-2 faults are placed: an error of a kind the call can produce (optionally persistent, or "
        "reported after the operation took effect), a short write, Ctrl-C before or after a call or at a function "
        "entry, a failed allocation, or a disk with too little room; non-trivial: at least one fault fired")
ASSUMES = ["an ordinary document is a regular file with one name, owned by the user, in a directory the user may write",
           "Ctrl-C is delivered at system calls and at entries of the package's functions", "faults are sampled"]


def gen(rng, i, tier):
    n = rng.choice((1, 1, 2, 3, 4))
    files = common.make_tree(rng, n, good=rng.random() < .8, bad=.15, crlf=.15, bigp=.15, tidy=.15, undecodable=.02, deepest=.01)
    named = [f["path"] for f in files[:n]]
    rng.shuffle(named)
    args = [common.spelled(rng, p) for p in named]
    if rng.random() < .12:
        files.append({"path": "/work/ln.md", "kind": "l", "target": common.rel(named[0])})
        args[0] = "ln.md"
    if rng.random() < .15:
        args = ["."]
    sc = {"fs": {"files": files, "listing": rng.randrange(-1, 5)}, "mseed": rng.getrandbits(30),
          "proc": {"cmd": {"paths": args, "width": common.width_of(rng), "opts": common.verbosity(rng)},
                   "faults": []}}
    common.dress(rng, sc, files[:n])
    if rng.random() < .1:
        sc["proc"]["cmd"]["opts"].append("--write-renders")
    if rng.random() < .15:
        sc["fs"]["capacity"] = rng.choice((0, 0, 1, 10, 100, 1000, rng.randrange(0, 5000)))
    res = Exec(sc).one(sc["proc"])
    faults = [f for f in (common.soft_fault(rng, res) for _ in range(rng.choice((1, 1, 1, 2)))) if f]
    if "capacity" in sc["fs"] and rng.random() < .7:
        faults = []
    sc["proc"]["faults"] = faults
    if rng.random() < .05:
        sc["proc"]["stdout"] = {"capacity": rng.randrange(0, 60)}
    return sc


def execute(sc):
    x = Exec(sc)
    expect = c01.predictions(x, sc["proc"]["cmd"])
    r = x.one(sc["proc"])
    c01.judge(x, expect)
    x.run.stats["probe:run-failed"] += r.code != 0
    x.run.stats["probe:run-succeeded-despite-fault"] += r.code == 0 and bool(r.fired)
    x.run.stats["probe:disk-full"] += x.fs.capacity == 0
    return x.finish(nontrivial=bool(r.fired) or bool(r.mon_fired) or "capacity" in sc["fs"])
