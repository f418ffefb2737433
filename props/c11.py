"""C11: pipe mode delivers the formatted document alone, whole, or not at all."""
from sim import cli, docs

from . import common
from .common import Exec

RUNS = {"quick": 5600, "thorough": 70000}
REAL, STUB = common.REAL_CLI, common.STUB_CLI
RULE = ("one document (formattable or not, decodable or not, up to 20 kB) arrives on standard input in random pieces "
        "through buffers of random size, at random verbosity, with or without a broken standard error; half of the "
        "runs suffer a failing or interrupted read or write, a short write, a full or closed output, or death; "
        "non-trivial: the input came in several pieces or a fault fired")
ASSUMES = ["--write-renders is exempt: its purpose is to show the differing texts", "text is UTF-8"]


def gen(rng, i, tier):
    d = docs.document(rng, bad=.12, crlf=.15, bigp=.1, tidy=.2, undecodable=.06, deepest=.03)
    n = len(d)
    mode = rng.random()
    if mode < .35:
        chunks = []
    elif mode < .7:
        chunks = [rng.randint(1, 7) for _ in range(rng.randint(1, 60))]
    else:
        chunks = [rng.choice((1, 2, 100, 511, 4096, max(1, n - 1), max(1, n // 2))) for _ in range(rng.randint(1, 8))]
    opts = rng.choice(([], [], ["-v"], ["-vv"], ["-vvv"], ["-q"], ["-qq"], ["-qqq"], ["-v", "-q"]))
    cmd = {"paths": [], "width": common.width_of(rng), "opts": opts}
    sc = {"fs": {"files": []}, "mseed": rng.getrandbits(30),
          "proc": {"cmd": cmd, "stdin": {"data": cli.enc(d), "chunks": chunks}, "faults": []}}
    p = sc["proc"]
    if rng.random() < .1:
        sc["fs"]["files"] = [{"path": "/work/o", "kind": "d"}]
        cmd["outdir"] = "o"
    if rng.random() < .08:
        cmd["opts"] = opts + ["--write-renders"]
    if rng.random() < .3:
        p["inbuf"] = rng.choice((1, 2, 16, 100, 8192))
    if rng.random() < .3:
        p["outbuf"] = rng.choice((16, 100, 8192))
    if rng.random() < .1:
        p["stderr_broken"] = True
    elif rng.random() < .04:
        p["closed"] = rng.choice(("stdout", "stderr", "stdin"))
    if rng.random() < .5:
        res = Exec(sc).one(p)
        r = rng.random()
        if r < .15:
            p["stdout"] = {"capacity": rng.randrange(0, max(1, len(res.out) + 2))}
        elif r < .3:
            pts = [q for q in common.all_points(res) if q[0] == "stdout.write"]
            if pts:
                q = rng.choice(pts)
                p["faults"] = [rng.choice((
                    {"call": q[0], "nth": q[1], "kind": "short", "arg": rng.randrange(100)},
                    {"call": q[0], "nth": q[1], "kind": "err", "errno": rng.choice(common.ERRS["stdout.write"])},
                    {"call": q[0], "nth": q[1], "kind": rng.choice(("kill", "kill_after", "sigint", "sigint_after"))}))]
        elif r < .7:
            pts = [q for q in common.all_points(res) if q[0] == "stdin.read"]
            if pts:
                q = rng.choice(pts)
                p["faults"] = [rng.choice((
                    {"call": q[0], "nth": q[1], "kind": "err", "errno": "EIO"},
                    {"call": q[0], "nth": q[1], "kind": "err", "errno": "EIO"},
                    {"call": q[0], "nth": q[1], "kind": rng.choice(("kill", "sigint", "memerr", "sigint_after"))}))]
        else:
            f = common.soft_fault(rng, res)
            p["faults"] = [f] if f else []
    return sc


def execute(sc):
    x = Exec(sc)
    run, proc = x.run, sc["proc"]
    data = cli.dec(proc["stdin"]["data"])
    e = docs.expected(data, common.eff(proc["cmd"].get("width", 88)))
    before = x.fs.snapshot("/")
    r = x.one(proc)
    good = e[0] == "ok"
    disturbed = bool(r.fired or r.mon_fired or proc.get("stdout") or proc.get("stderr_broken")
                     or proc.get("closed") in ("stdout", "stdin"))
    if r.hung:
        run.problem("no-end", "the run did not end within the step budget")
    elif not good:
        if r.out and "--write-renders" not in proc["cmd"].get("opts", []):
            run.problem("output-without-document", f"the input is {e[0]} ({e[1]}), yet standard output got "
                                                   f"{common.short(r.out)}")
        if r.code == 0:
            run.problem("status", f"status 0 for an input that is {e[0]} ({e[1]})")
    else:
        if not e[1].startswith(r.out):
            run.problem("not-alone", f"standard output holds {common.short(r.out, 300)}, which is not (a beginning of) "
                                     f"the document {common.short(e[1], 300)}")
        if r.code == 0 and r.out != e[1]:
            run.problem("incomplete", f"status 0 with {len(r.out)} of {len(e[1])} bytes written")
        if not disturbed and (r.code != 0 or r.out != e[1]):
            run.problem("failed-without-reason", f"status {r.code} ({r.exc}), {len(r.out)} of {len(e[1])} bytes, "
                                                 f"although nothing failed: {r.err[-200:]!r}")
        cut = any(n == "stdin.read" and k in ("err", "sigint", "sigint_after", "memerr", "kill") for n, _, k in r.fired)
        if cut and r.out:
            run.problem("partial-input", f"the input was cut short, yet standard output got {common.short(r.out)}")
        if cut and r.code == 0:
            run.problem("status", "status 0 although the input could not be read")
    if proc.get("closed") == "stdin" and r.out and e[1:2] != (r.out,):
        run.problem("output-without-document", f"without standard input, standard output got {common.short(r.out)}")
    if x.fs.snapshot("/") != before:
        run.problem("footprint", "pipe mode changed the file system")
    run.stats["probe:undecodable"] += e[0] == "undecodable"
    run.stats["probe:unformattable"] += e[0] == "err"
    run.stats["probe:output-cut"] += r.code != 0 and good and len(r.out) < len(e[1])
    run.stats["probe:split-inside-character"] += splits(data, proc["stdin"].get("chunks", []))
    return x.finish(nontrivial=r.stdin_reads > 2 or disturbed)


def splits(data, chunks):
    pos = 0
    for c in chunks:
        pos += c
        if 0 < pos < len(data) and data[pos] & 0xC0 == 0x80:
            return True
    return False
