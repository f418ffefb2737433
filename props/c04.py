"""C04: --check changes nothing, and its verdict is what a formatting run would do."""
import re

from sim import cli, docs

from . import c01, c03, c14, common
from .common import Exec

RUNS = {"quick": 5000, "thorough": 62500}
REAL, STUB = common.REAL_CLI, common.STUB_CLI
RULE = ("--check over random trees or standard input, combined at random with --output-dir, --output-file, "
        "--write-renders, widths, verbosity and every position of the flag; half of the runs are undisturbed (status "
        "compared with a formatting run on an identical machine), the others suffer I/O errors, interrupts, failed "
        "allocations or unreadable files; the whole tree, including inodes and time stamps, must be untouched; "
        "non-trivial: a fault fired or something would be reformatted")
ASSUMES = ["access times are not modelled"]

RENDER = re.compile(r"\.[12](\.md)?$|/\.markflow-\w+\.tmp$")


def gen(rng, i, tier):
    stdin_mode = rng.random() < .25
    n = rng.choice((1, 1, 2, 3, 5)) if rng.random() < .97 else rng.choice((8, 12))
    good = rng.random() < .75
    kw = {"bad": .25, "crlf": .25, "bigp": .04, "tidy": .6, "undecodable": .04, "deepest": .01}
    opts = common.verbosity(rng) + ["-q"] * rng.choice((0, 0, 0, 1, 1, 2, 3, 5))
    if rng.random() < .15:
        opts.append("--write-renders")
    cmd = {"check": True, "width": common.width_of(rng), "opts": opts, "first": rng.random() < .5}
    sc = {"fs": {"files": [], "listing": rng.randrange(-1, 5)}, "mseed": rng.getrandbits(30),
          "proc": {"cmd": cmd, "faults": []}}
    if stdin_mode:
        d = docs.good_document(rng, **kw) if good else docs.document(rng, **kw)
        sc["proc"]["stdin"] = {"data": cli.enc(d), "chunks": [rng.randint(1, 40) for _ in range(rng.choice((0, 3)))]}
        cmd["paths"] = []
    else:
        files = common.make_tree(rng, n, good=good, **kw)
        sc["fs"]["files"] = files
        named = [f["path"] for f in files[:n]]
        cmd["paths"] = [common.spelled(rng, p) for p in named]
        if rng.random() < .25:
            cmd["paths"] = ["."]
        for f in files[:n]:
            if rng.random() < .06:
                f["mode"] = rng.choice((0o000, 0o444, 0o400, 0o222))
        r = rng.random()
        if r < .15:
            files.append({"path": "/work/out", "kind": "d"})
            cmd["outdir"] = "out"
            if rng.random() < .4:
                files.append({"path": "/work/out/f0.md", "data": "earlier\n"})
        elif r < .28 and cmd["paths"] != ["."]:
            cmd["outfiles"] = [f"o{j}.md" for j in range(n)]
            if rng.random() < .5:
                files.append({"path": "/work/o0.md", "data": "earlier\n"})
    if rng.random() < .5:
        res = Exec(sc).one(sc["proc"])
        sc["proc"]["faults"] = [f for f in (common.soft_fault(rng, res) for _ in range(rng.choice((1, 1, 2)))) if f]
    return sc


def execute(sc):
    x = Exec(sc)
    run, proc = x.run, sc["proc"]
    cmd = dict(proc["cmd"], check=True)
    proc = dict(proc, cmd=cmd)
    before = x.fs.snapshot("/")
    r = x.one(proc)
    after = x.fs.snapshot("/")
    for p in sorted(set(before) | set(after)):
        if before.get(p) != after.get(p):
            if "--write-renders" in cmd.get("opts", []) and (RENDER.search(p) or p == "//work" or
                                                             (after.get(p) or "x")[0] == "d"):
                continue
            run.problem("check-wrote", f"--check changed {p}: {common.short(before.get(p))} -> "
                                       f"{common.short(after.get(p))}")
    if r.hung:
        run.problem("no-end", "the run did not end within the step budget")
    width = common.eff(cmd.get("width", 88))
    stdin = proc.get("stdin")
    if cmd.get("paths"):
        expect = c01.predictions(x, cmd)
        blind = [p for p in expect if not x.fs.allowed(x.fs.walk(p, x.fs.root, common.ROOTCRED), (1000, [1000]), 4)]
        would = sorted(p for p, e in expect.items() if e[0] == "ok" and e[1] != x.before[p])
        bad = sorted(p for p, e in expect.items() if e[0] != "ok") + blind
    elif stdin and "data" in stdin and not stdin.get("tty"):
        d = cli.dec(stdin["data"])
        e = docs.expected(d, width)
        bad, would = (["stdin"], []) if e[0] != "ok" else ([], ["stdin"] if e[1] != d else [])
        expect = {"stdin": e}
    else:
        return x.finish()
    calm = not proc.get("faults")
    refused = c14.unusable(x.fs, cmd)
    if refused and r.code == 0:
        run.problem("verdict", f"status 0 although {refused}")
    # the same documents may change only after an earlier failure, so with faults only "never 0" can be said
    if r.code == 0 and bad:
        run.problem("verdict", f"status 0 although {bad[0]} could not be examined")
    if r.code == 0 and would:
        run.problem("verdict", f"status 0 although {would[0]} would be reformatted")
    if calm and not bad and not refused:
        want = 1 if would else 0
        if r.code != want:
            run.problem("verdict", f"status {r.code} ({r.exc}), but a formatting run would change "
                                   f"{would or 'nothing'}")
        compare_with_real_run(x, sc, proc, r, run)
    run.stats["probe:would-reformat"] += bool(would)
    run.stats["probe:unexaminable"] += bool(bad)
    run.stats["probe:output-options"] += bool(cmd.get("outdir") or cmd.get("outfiles"))
    return x.finish(nontrivial=bool(r.fired or r.mon_fired) or bool(would))


def compare_with_real_run(x, sc, proc, r, run):
    cmd = {k: v for k, v in proc["cmd"].items() if k not in ("check", "outdir", "outfiles")}
    y = Exec(sc)
    if any(f.get("mode", 0o644) & 0o200 == 0 for f in sc["fs"]["files"]):
        return
    q = y.one(dict(proc, cmd=cmd, faults=[]))
    if cmd.get("paths"):
        changed = common.contents(y.fs) != y.before
    else:
        changed = q.out != cli.dec(proc["stdin"]["data"])
    if q.code == 0 and cmd.get("paths"):
        compare_reports(r, q, common.targets(x.fs, cmd), run)
    if q.code == 0 and changed != (r.code == 1):
        run.problem("verdict", f"--check ended with {r.code}, but a formatting run "
                               f"{'changes something' if changed else 'changes nothing'}")
    x.results.extend(y.results)


WOULD = re.compile(r"(\d+)files?wouldbe(reformatted|leftunchanged)")
DID = re.compile(r"(\d+)files?(?:was|were)(reformatted|leftunchanged)")


def compare_reports(r, q, targets, run):
    """Check mode names the documents that the real run then reports, and counts the same."""
    check, real = c03.report(r.out)[0], c03.report(q.out)[0]
    tails = {c03.tail_of(given) for given, _ in targets}
    for tail in sorted(tails):
        if any(t != tail and t.startswith(tail) for t in tails):
            continue
        said = ("wouldreformat" + tail) in check or ("wouldreformat./" + tail) in check
        done = ("reformatted" + tail) in real or ("reformatted./" + tail) in real
        if said != done:
            run.problem("report", f"--check {'reports' if said else 'does not report'} {tail}, the real run "
                                  f"{'reformats' if done else 'does not reformat'} it: {common.short(r.out, 600)}")
    counts = [{k: int(n) for n, k in rx.findall(text)} for rx, text in ((WOULD, check), (DID, real))]
    if len({ino for _, ino in targets}) == len(targets) and counts[0] != counts[1]:
        run.problem("report", f"--check counts {counts[0]}, the real run {counts[1]}: {common.short(r.out, 600)}")
    run.stats["probe:reports-compared"] += 1
