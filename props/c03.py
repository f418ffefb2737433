"""C03: a run ends; status 0 means every requested document is formatted, and the report is true."""
import re

from sim import docs

from . import c01, common
from .common import Exec

RUNS = {"quick": 5000, "thorough": 62500}
REAL, STUB = common.REAL_CLI, common.STUB_CLI
RULE = ("random trees of 1-5 documents (some already formatted, some with CR or CRLF line ends, some that cannot be "
        "formatted) named directly or through directories; two in five runs are undisturbed and judged exactly (status "
        "and report), the others suffer 1-2 failing or partial system calls, interrupts, failed allocations, a full "
        "disk or unreadable directories and are judged by 'status 0 implies everything is formatted'; every run must "
        "end within the step budget; non-trivial: a fault fired, or at least two documents with different fates")
ASSUMES = ["a document the library formats when called alone must be formatted by the command",
           "report texts are compared with all white space removed", "step budget 12 million function entries and jumps"]


def gen(rng, i, tier):
    n = rng.choice((1, 2, 2, 3, 5)) if rng.random() < .97 else rng.choice((8, 12, 20, 105))
    calm = rng.random() < .4
    files = common.make_tree(rng, n, good=rng.random() < .75, bad=.2, crlf=.25, bigp=.06, tidy=.4,
                             undecodable=.03, deepest=.05)
    named = [f["path"] for f in files[:n]]
    rng.shuffle(named)
    paths = [common.spelled(rng, p) for p in named]
    if rng.random() < .3:
        paths = ["."] if rng.random() < .5 else sorted({"/".join(p.split("/")[:3]) for p in named})
    sc = {"fs": {"files": files, "listing": rng.randrange(-1, 5)}, "mseed": rng.getrandbits(30),
          "proc": {"cmd": {"paths": paths, "width": common.width_of(rng), "opts": common.verbosity(rng)
                           + ["--write-renders"] * (rng.random() < .12) + ["-q"] * rng.choice((0, 0, 0, 1)), "first": rng.random() < .7}, "faults": []}}
    if not calm:
        if rng.random() < .15:
            dirs = sorted({f["path"].rsplit("/", 1)[0] for f in files} - {"/work"})
            if dirs:
                sc["fs"]["dirmodes"] = [{"path": rng.choice(dirs), "mode": rng.choice((0o000, 0o300, 0o500, 0o600))}]
                return sc
        if rng.random() < .1:
            sc["fs"]["capacity"] = rng.choice((0, 0, 10, 200, 1000))
            return sc
        res = Exec(sc).one(sc["proc"])
        pts = common.all_points(res)
        if rng.random() < .15 and pts:
            # somebody removes a document meanwhile
            p = rng.choice([q for q in pts if q[0] in ("stat", "access", "open.r")] or pts)
            sc["proc"]["faults"] = [{"call": p[0], "nth": p[1], "kind": "ext",
                                     "action": {"op": "unlink", "path": rng.choice(named)}}]
            return sc
        sc["proc"]["faults"] = [f for f in (common.soft_fault(rng, res) for _ in range(rng.choice((1, 1, 2)))) if f]
        if rng.random() < .1:
            sc["proc"]["stdout"] = {"capacity": rng.randrange(0, 40)}
        elif rng.random() < .06:
            sc["proc"]["closed"] = rng.choice(("stdout", "stderr", "stdin"))
    return sc


def report(out):
    """(names reported as reformatted, number reformatted, number left unchanged) from a run's output."""
    text = re.sub(rb"\s+", b"", out).decode("utf-8", "replace")
    m = re.search(r"(\d+)files?(?:was|were)reformatted", text)
    changed = int(m.group(1)) if m else 0
    m = re.search(r"(\d+)files?(?:was|were)leftunchanged", text)
    same = int(m.group(1)) if m else 0
    return text, changed, same


def execute(sc):
    x = Exec(sc)
    proc, cmd = sc["proc"], sc["proc"]["cmd"]
    expect = c01.predictions(x, cmd)
    targets = common.targets(x.fs, cmd)
    explicit = {real_path(p) for p in cmd.get("paths", [])}
    gone = {f["action"]["path"] for f in proc.get("faults", []) if f["kind"] == "ext" and f["action"]["op"]}
    r = x.one(proc)
    after = common.contents(x.fs)
    run = x.run
    calm = not proc.get("faults") and not sc["fs"].get("dirmodes") and sc["fs"].get("capacity") is None \
        and not proc.get("stdout") and not proc.get("closed")
    if r.hung:
        run.problem("no-end", f"the run did not end within the step budget ({r.exc})")
        return x.finish()
    if r.code == 0:
        for p, e in sorted(expect.items()):
            if p in gone and p not in after and (p not in explicit or e[0] == "ok" and read_before_removal(r, p)):
                run.stats["probe:removed-meanwhile"] += 1
            elif e[0] != "ok":
                run.problem("status-0-unformatted", f"status 0 although {p} cannot be formatted ({e[1:]})")
            elif after.get(p) != e[1]:
                run.problem("status-0-unformatted", f"status 0 but {p} holds {common.short(after.get(p))} instead of "
                                                    f"{common.short(e[1])}")
    good = all(e[0] == "ok" for e in expect.values())
    fates = {e[0] == "ok" and e[1] == x.before[p] for p, e in expect.items()}
    if calm and good:
        if r.code != 0:
            run.problem("failed-without-reason", f"status {r.code} ({r.exc}) although nothing failed; stderr "
                                                 f"{r.err[-300:]!r}")
        elif targets and len({ino for _, ino in targets}) == len(targets):
            judge_report(x, targets, expect, r)
            run.stats["probe:report-checked"] += 1
    if not calm:
        honest(run, targets, expect, after, gone, r)
    elif not good:
        run.stats["probe:unformattable-document"] += 1
        if r.code == 0:
            run.problem("status-0-unformatted", "status 0 although a document cannot be formatted")
    run.stats["probe:crlf-input"] += any(b"\r" in x.before[p] for p in expect)
    run.stats["probe:unreadable-directory"] += bool(sc["fs"].get("dirmodes"))
    run.stats["probe:status-0-under-fault"] += r.code == 0 and not calm
    return x.finish(nontrivial=bool(r.fired or r.mon_fired) or len(fates) > 1 or "dirmodes" in sc["fs"])


def read_before_removal(r, path):
    for name, detail, out in r.oplog:
        if out == "ext":
            return False
        if name == "open.r" and real_path(detail) == path:
            return True
    return True


def tail_of(given):
    tail = re.sub(r"\s+", "", given.encode("utf-8", "backslashreplace").decode("utf-8"))
    return tail[2:] if tail.startswith("./") else tail


def honest(run, targets, expect, after, gone, r):
    """What a run that was disturbed says it did, it did."""
    text = report(r.out)[0]
    tails = {given: tail_of(given) for given, _ in targets}
    for given, tail in tails.items():
        path = real_path(given)
        if path not in expect or path in gone or any(t != tail and t.startswith(tail) for t in tails.values()):
            continue
        if ("reformatted" + tail) in text or ("reformatted./" + tail) in text:
            run.stats["probe:report-of-disturbed-run"] += 1
            if expect[path][0] != "ok" or after.get(path) != expect[path][1]:
                run.problem("report-wrong", f"{given} is reported as reformatted (status {r.code} {r.exc}) but holds "
                                            f"{common.short(after.get(path))} instead of {common.short(expect[path])}")


def judge_report(x, targets, expect, r):
    text, changed, same = report(r.out)
    by_ino = {v[5]: p for p, v in x.fs.snapshot().items() if v[0] == "f"}
    # a renamed-over document has a new inode: go by name where the name is a document
    n_changed = n_same = 0
    tails = {tail_of(given) for given, _ in targets}
    for given, ino in targets:
        path = real_path(given)
        if path not in expect:
            path = by_ino.get(ino, path)
        if path not in expect:
            return                                    # symbolic link: not judged here
        moved = expect[path][1] != x.before[path]
        n_changed += moved
        n_same += not moved
        tail = tail_of(given)
        if any(t != tail and t.startswith(tail) for t in tails):
            continue
        said = ("reformatted" + tail) in text or ("reformatted./" + tail) in text
        if said != moved:
            x.run.problem("report-wrong", f"{given} {'was' if moved else 'was not'} reformatted, but the output "
                                          f"{'says so' if said else 'does not say so'}: {r.out!r}")
    if (changed, same) != (n_changed, n_same):
        x.run.problem("report-wrong", f"reported {changed} reformatted and {same} unchanged, in fact {n_changed} and "
                                      f"{n_same}: {r.out!r}")


def real_path(given):
    import posixpath
    return posixpath.normpath(posixpath.join("/work", given))


_ = docs
