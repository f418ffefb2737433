"""C05: formatting converges; interrupted histories can be resumed; a second run is a no-op."""
from sim import docs

from . import c01, c03, common
from .common import Exec

RUNS = {"quick": 2800, "thorough": 35000}
REAL, STUB = common.REAL_CLI, common.STUB_CLI
RULE = ("random trees of 1-4 formattable documents; 0-3 runs that crash (process killed or power lost, torn writes), "
        "fail (I/O errors, full disk) or are interrupted, each with a fault placed from a dry run on the state it "
        "starts from; then one undisturbed run, a second one and a --check; non-trivial: at least one earlier run was "
        "struck, or something was reformatted")
ASSUMES = ["every run of a history names the same documents and width", "see C01 for the disk model"]


def gen(rng, i, tier):
    n = rng.choice((1, 2, 2, 3, 4))
    files = common.make_tree(rng, n, good=True, crlf=.2, bigp=.08, tidy=.2)
    named = [f["path"] for f in files[:n]]
    rng.shuffle(named)
    paths = [common.spelled(rng, p) for p in named] if rng.random() < .8 else ["."]
    cmd = {"paths": paths, "width": common.width_of(rng), "opts": common.verbosity(rng)}
    sc = {"fs": {"files": files, "listing": rng.randrange(-1, 5)}, "mseed": rng.getrandbits(30), "cmd": cmd,
          "history": []}
    for _ in range(rng.choice((0, 1, 1, 2, 3))):
        x = Exec(sc)
        replay_history(x, sc)
        res = x.one({"cmd": cmd})
        f = common.hard_fault(rng, res) if rng.random() < .6 else common.soft_fault(rng, res)
        step = {"faults": [f] if f else []}
        if rng.random() < .35:
            step["power"] = {"keep": rng.randrange(0, 64), "data": [rng.randrange(0, 4) for _ in range(3)]}
        if rng.random() < .1:
            step = {"faults": [], "capacity": rng.choice((0, 0, 20, 300))}
        sc["history"].append(step)
    return sc


def replay_history(x, sc):
    for step in sc["history"]:
        if "capacity" in step:
            x.fs.capacity = step["capacity"]
        x.one({"cmd": sc["cmd"], "faults": step.get("faults", [])})
        x.fs.capacity = None
        if step.get("power"):
            x.power_loss(step["power"]["keep"], step["power"]["data"])


def execute(sc):
    x = Exec(sc)
    run, cmd = x.run, sc["cmd"]
    expect = c01.predictions(x, cmd)
    if any(e[0] != "ok" for e in expect.values()):
        return x.finish(nontrivial=False)
    replay_history(x, sc)
    struck = any(r.fired or r.mon_fired for r in x.results) or any(s.get("power") for s in sc["history"])
    first = x.one({"cmd": cmd})
    if first.code != 0:
        run.problem("cannot-resume", f"the undisturbed run after the history ends with {first.code} ({first.exc}): "
                                     f"{first.err[-300:]!r}")
        return x.finish()
    after = common.contents(x.fs)
    for p, e in sorted(expect.items()):
        if after.get(p) != e[1]:
            run.problem("wrong-convergence", f"after the history and an undisturbed run {p} holds "
                                             f"{common.short(after.get(p))}, a single run would have left "
                                             f"{common.short(e[1])}")
    for p, old in x.before.items():
        if p not in expect and after.get(p) != old:
            run.problem("bystander", f"{p} changed: {common.short(after.get(p))}")
    snap = x.fs.snapshot("/")
    second = x.one({"cmd": cmd})
    if second.code != 0:
        run.problem("rerun-fails", f"running again ends with {second.code} ({second.exc})")
    elif cmd.get("paths"):
        text, changed, same = c03.report(second.out)
        n = len(common.targets(x.fs, cmd))
        if changed or same != n:
            run.problem("rerun-report", f"running again reports {changed} reformatted and {same} unchanged of {n}")
    diff = [p for p in sorted(set(snap) | set(x.fs.snapshot("/"))) if snap.get(p) != x.fs.snapshot("/").get(p)]
    if diff:
        run.problem("rerun-writes", f"running again changed {diff[0]}: {common.short(snap.get(diff[0]))} -> "
                                    f"{common.short(x.fs.snapshot('/').get(diff[0]))}")
    check = x.one({"cmd": dict(cmd, check=True)})
    if check.code != 0:
        run.problem("recheck", f"--check after a successful run ends with {check.code}")
    run.stats["probe:history-struck"] += struck
    run.stats["probe:resumed-partial"] += struck and any(after[p] != x.before[p] for p in expect)
    return x.finish(nontrivial=struck or any(e[1] != x.before[p] for p, e in expect.items()))


_ = docs
