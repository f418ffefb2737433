"""C07: concurrent runs over the same files behave as if run one after another."""
import itertools

from sim import docs

from . import common
from .common import Exec

RUNS = {"quick": 2600, "thorough": 32500}
REAL, STUB = common.REAL_CLI, common.STUB_CLI
RULE = ("2-3 formatting or checking processes over overlapping sets of 1-3 documents, switched at system calls by a "
        "seeded scheduler (switching probabilities 2% to 60%), one of them killed or torn at a random system call in "
        "a quarter of the runs; non-trivial: at least two switches happened between processes naming a common file")
ASSUMES = ["processes are switched at system calls", "documents are chosen so that formatting at one width after another "
           "gives the same text as formatting at the last width alone, so the outcomes of all orders are known exactly"]
FROZEN = ("switches",)


def confluent(data, widths):
    outs = {}
    for w in widths:
        e = docs.expected(data, common.eff(w))
        if e[0] != "ok":
            return False
        outs[w] = e[1]
    for a, b in itertools.product(widths, repeat=2):
        e = docs.expected(outs[a], common.eff(b))
        if e[0] != "ok" or e[1] != outs[b]:
            return False
    return True


def gen(rng, i, tier):
    widths = [rng.choice((88, 88, 40, 60, 20)) for _ in range(rng.choice((2, 2, 3)))]
    n = rng.choice((1, 1, 2, 3))
    files = []
    for j in range(n):
        d = None
        for _ in range(12):
            d = docs.good_document(rng, crlf=.1, bigp=.08, tidy=.2)
            if confluent(d, sorted(set(widths))):
                break
        else:
            d = b"* a\n* b\n"
        files.append({"path": f"/work/f{j}.md", "data": common.cli.enc(d)})
    if rng.random() < .4:
        files.append({"path": "/work/bystander.txt", "data": "keep\n"})
    procs = []
    for k, w in enumerate(widths):
        names = [f"f{j}.md" for j in range(n)]
        rng.shuffle(names)
        names = names[:rng.randint(1, n)] if rng.random() < .4 else names
        cmd = {"paths": ["."] if rng.random() < .2 else names, "width": w, "opts": common.verbosity(rng)}
        if rng.random() < .25:
            cmd["check"] = True
        procs.append({"cmd": cmd, "faults": [], "pid": rng.randrange(0, 3)})
    sc = {"fs": {"files": files, "listing": rng.randrange(-1, 5)}, "mseed": rng.getrandbits(30), "procs": procs,
          "sched": {"seed": rng.getrandbits(30), "p": rng.choice((.02, .05, .1, .2, .35, .6))}}
    if rng.random() < .25:
        k = rng.randrange(len(procs))
        f = common.hard_fault(rng, Exec(sc).one(procs[k]))
        if f:
            procs[k]["faults"] = [f]
    return sc


def execute(sc):
    x = Exec(sc)
    procs = sc["procs"]
    widths = sorted({p["cmd"].get("width", 88) for p in procs})
    named = [common.paths_of(x.fs, {ino for _, ino in common.targets(x.fs, p["cmd"])}) for p in procs]
    for p in set().union(*named) if named else ():
        if not confluent(x.before[p], widths):
            return x.finish(nontrivial=False)
    res = x.procs(procs, sched=sc.get("sched"), switches=sc.get("switches"))
    run = x.run
    run.frozen = {k: v for k, v in sc.items() if k != "sched"}
    run.frozen["switches"] = x.switches
    after = common.contents(x.fs)
    killed = [r.killed for r in res]
    states = {}
    for p, old in x.before.items():
        writers = [i for i, pr in enumerate(procs) if p in named[i] and not pr["cmd"].get("check")]
        ends = [docs.expected(old, common.eff(procs[i]["cmd"].get("width", 88)))[1] for i in writers]
        states[p] = [old, *ends]
        final = set(ends)
        if not writers or all(killed[i] for i in writers):
            final.add(old)
        if p not in after:
            run.problem("lost", f"{p} is gone")
        elif after[p] not in final:
            run.problem("not-serial", f"{p} holds {common.short(after[p])}; possible outcomes of the runs one after "
                                      f"another: {[common.short(f, 80) for f in sorted(final)]}")
    extra = [p for p in after if p not in x.before]
    if extra and not any(killed):
        run.problem("left-behind", f"{extra[0]} was left behind")
    for i, r in enumerate(res):
        if r.killed:
            continue
        if r.hung:
            run.problem("no-end", f"process {i} did not end")
        elif procs[i]["cmd"].get("check"):
            possible = {0: True, 1: False}
            for p in named[i]:
                ch = [docs.expected(s, common.eff(procs[i]["cmd"].get("width", 88)))[1] != s for s in states[p]]
                if all(ch):
                    possible[0] = False
                if any(ch):
                    possible[1] = True
            if not possible.get(r.code):
                run.problem("check-verdict", f"process {i} (--check) ended with {r.code} ({r.exc}); possible: "
                                             f"{[c for c, ok in possible.items() if ok]}")
        elif r.code != 0:
            run.problem("disturbed", f"process {i} failed with {r.code} ({r.exc}) because of the others: "
                                     f"{r.err[-200:]!r}")
    shared = any(named[a] & named[b] for a, b in itertools.combinations(range(len(procs)), 2))
    run.stats["switches"] += len(x.switches)
    run.stats["probe:killed"] += any(killed)
    run.stats["probe:both-wrote"] += sum(1 for e in x.machine.log if e[1] == "rename" or e[1] == "write"
                                         and "work" in e[2]) > 1
    return x.finish(nontrivial=shared and len(x.switches) >= 2)
