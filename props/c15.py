"""C15: verbosity, environment, clock and hash seed never change the result."""
import json
import os
import subprocess
import sys

from sim import cli, docs, harness

from . import common
from .common import Exec

RUNS = {"quick": 2000, "thorough": 25000}
REAL, STUB = common.REAL_CLI, common.STUB_CLI + ["for the hash-seed runs: none (a fresh interpreter runs the simulation)"]
RULE = ("one command (in place, check, output directory or pipe) is run on identical machines in a plain setting and in "
        "2-4 random others that differ in verbosity, terminal, COLUMNS and other variables, locale encoding, clock "
        "value, jumps and speed, process id, random bytes, time zone, broken or closed standard error; files and status must "
        "be the same; every 250th run repeats a batch under other hash seeds in fresh interpreters; non-trivial: the "
        "command has something to format; in two runs of five the variables that vary include those the command was seen to "
        "look up")
ASSUMES = ["documents are UTF-8 whatever the locale says"]

ENVS = ({"COLUMNS": "1"}, {"COLUMNS": "7"}, {"COLUMNS": "20"}, {"COLUMNS": "300"}, {"COLUMNS": "x"}, {"COLUMNS": "0"},
        {"LINES": "1"}, {"TERM": "xterm-256color"}, {"TERM": "unknown"}, {"TERM": ""}, {"NO_COLOR": "1"},
        {"FORCE_COLOR": "1"}, {"HOME": "/nonexistent"}, {"LANG": "C"}, {"LC_ALL": "de_DE.ISO-8859-1"}, {"TZ": "Asia/Tokyo"},
        {"DEBUG": "1"}, {"VERBOSE": "1"}, {"CI": "true"}, {"PYTHONDEVMODE": "1"}, {"EDITOR": "vi"}, {"USER": ""},
        {"MARKFLOW_LINE_LENGTH": "20"}, {"LINE_LENGTH": "20"}, {"COLORTERM": "truecolor"}, {"JUPYTER_COLUMNS": "9"},
        {"TMPDIR": "/nonexistent"}, {"TMPDIR": "/work"}, {"SOURCE_DATE_EPOCH": "0"}, {"LOGLEVEL": "DEBUG"})


# read by argparse and rich for the looks of messages
USUAL = {"COLUMNS", "FORCE_COLOR", "LANGUAGE", "LC_ALL", "LINES", "NO_COLOR", "TTY_COMPATIBLE", "TTY_INTERACTIVE", "LANG",
         "LC_MESSAGES", "TERM", "UNICODE_VERSION", "HOME", "PATH"}
VALUES = ("", "0", "1", "1", "2", "20", "40", "100", "true", "false", "no", "x", "/nonexistent", "/work", "DEBUG", "latin-1", "-1",
          "--check", "a:b")


def variant(rng, pipe, reads=()):
    v = {}
    r = rng.random()
    if r < .7:
        v["opts"] = rng.choice((["-v"], ["-vv"], ["-vvv"], ["-v", "-v", "-q"], ["-q"], ["-qq"], ["--verbose"], ["--quiet"],
                                ["-vvvvvv"], ["-qqqq"]))
    env = {}
    for _ in range(rng.choice((0, 1, 1, 3))):
        env.update(rng.choice(ENVS))
    if reads and rng.random() < .5:
        odd = [k for k in reads if k not in USUAL]
        names = odd if odd and rng.random() < .8 else sorted(reads)
        for k in rng.sample(names, min(len(names), rng.choice((1, 1, 2)))):
            env[k] = rng.choice(VALUES)
    if env:
        v["env"] = env
    if rng.random() < .3:
        v["encoding"] = rng.choice(("latin-1", "cp1252", "ascii", "utf-8", "utf-16", "cp437"))
    if rng.random() < .3:
        v["clock"] = rng.choice((0.0, 1.0, 86399.5, 951782400.0, 2147483647.9, 4102444800.0, 1e10))
    if rng.random() < .2:
        v["tick"] = rng.choice((.001, 1.0, 10.0, 1e5, -1.0))
    if rng.random() < .2:
        v["jumps"] = [[rng.choice(("open.r", "read", "open.w", "write", "stat")), rng.randint(1, 4),
                       rng.choice((-1e6, 3600.0, -0.5, 1e8))]]
    if rng.random() < .3:
        v["pid"] = rng.randrange(0, 30000)
    if rng.random() < .3:
        v["mseed"] = rng.getrandbits(30)
    if rng.random() < .2:
        v["tty"] = True
    r = rng.random()
    if r < .15:
        v["stderr_broken"] = rng.choice((True, True, "ENOSPC", "EIO"))
    elif r < .25:
        v["closed"] = "stderr"
    elif r < .3 and not pipe:
        v["closed"] = "stdin"
    if rng.random() < .2:
        v["umask"] = rng.choice((0o077, 0o002))
    return v


def gen(rng, i, tier):
    if i % 250 == 3:
        return {"hashseeds": [str(rng.randrange(1, 1 << 32)) for _ in range(2)], "optimize": rng.choice(("1", "2")), "batch": [
            gen_command(rng) for _ in range(25)]}
    sc = gen_command(rng)
    reads = ()
    if rng.random() < .4:
        # which variables does this command ask for?
        x, cmd_opts = Exec(sc), sc["proc"]["cmd"]["opts"]
        reads = x.one(dict(sc["proc"], cmd=dict(sc["proc"]["cmd"], opts=cmd_opts + ["-vvv"]))).env_reads
    sc["variants"] = [variant(rng, not sc["proc"]["cmd"]["paths"], reads) for _ in range(rng.choice((2, 3, 4)))]
    return sc


def gen_command(rng):
    kw = {"bad": .06, "crlf": .12, "bigp": .05, "tidy": .25, "undecodable": .03}
    width = common.width_of(rng)
    cmd = {"paths": [], "width": width, "opts": []}
    sc = {"fs": {"files": [], "listing": rng.randrange(-1, 4)}, "mseed": rng.getrandbits(30),
          "proc": {"cmd": cmd, "stdin": {"data": "*  from stdin\n", "tty": True}}}
    if rng.random() < .25:
        sc["proc"]["stdin"] = {"data": cli.enc(docs.document(rng, **kw))}
        if rng.random() < .3:
            cmd["check"] = True
        if rng.random() < .15:
            cmd["opts"].append("--write-renders")
        return sc
    n = rng.choice((1, 2, 3))
    files = common.make_tree(rng, n, good=rng.random() < .8, **kw)
    sc["fs"]["files"] = files
    cmd["paths"] = [common.rel(f["path"]) for f in files[:n]] if rng.random() < .75 else ["."]
    r = rng.random()
    if r < .2:
        cmd["check"] = True
    elif r < .4:
        files.append({"path": "/work/o", "kind": "d"})
        cmd["outdir"] = "o"
    elif r < .5 and cmd["paths"] != ["."]:
        cmd["outfiles"] = [f"out{k}{rng.choice(('', '.md', chr(0x65e5)))}" for k in range(n)]
    if rng.random() < .1:
        cmd["opts"].append("--write-renders")
    return sc


def under(sc, v):
    """The scenario with the variant applied."""
    proc = dict(sc["proc"], cmd=dict(sc["proc"]["cmd"], opts=sc["proc"]["cmd"]["opts"] + v.get("opts", [])))
    for k in ("env", "encoding", "pid", "stderr_broken", "closed", "umask"):
        if k in v:
            proc[k] = v[k]
    if v.get("tty"):
        proc["stdout"] = {"tty": True}
    if v.get("jumps"):
        proc["faults"] = [{"call": c, "nth": n, "kind": "clock", "arg": a} for c, n, a in v["jumps"]]
    out = dict(sc, proc=proc)
    for k in ("clock", "mseed", "tick"):
        if k in v:
            out[k] = v[k]
    return out, proc


def outcome(x, r, sc):
    stdin = sc["proc"].get("stdin") or {}
    pipe = not sc["proc"]["cmd"].get("paths") and not stdin.get("tty") and "data" in stdin \
        and not sc["proc"]["cmd"].get("check")
    return {"status": r.code, "files": {p: (v[0], v[2], v[3], v[7]) for p, v in x.fs.snapshot("/work").items()},
            "output": r.out if pipe else b""}


def execute(sc):
    if "hashseeds" in sc:
        return hash_run(sc)
    base = Exec(sc)
    b = outcome(base, base.one(sc["proc"]), sc)
    run = base.run
    for v in sc["variants"]:
        vsc, proc = under(sc, v)
        x = Exec(vsc)
        r = x.one(proc)
        got = outcome(x, r, sc)
        for k in ("status", "files", "output"):
            if got[k] != b[k]:
                detail = f"{b[k]!r} -> {got[k]!r}"
                if k == "files":
                    p = next(p for p in sorted(set(b[k]) | set(got[k])) if b[k].get(p) != got[k].get(p))
                    detail = f"{p}: {common.short(b[k].get(p))} -> {common.short(got[k].get(p))}"
                run.problem(k + "-differs", f"in the setting {json.dumps(v)} the {k} differ: {detail[:600]} "
                                            f"{r.exc} {r.err[-200:]!r}")
                break
        base.h.update(x.h.digest())
        base.results.extend(x.results)
        for name, num in x.machine.fault_counts.items():
            base.machine.fault_counts[name] = base.machine.fault_counts.get(name, 0) + num
        for name in v:
            run.stats["probe:varied-" + name] += 1
    changed = any(f.get("data") is not None for f in sc["fs"]["files"]) or not sc["proc"]["cmd"].get("paths")
    return base.finish(nontrivial=changed)


# ------------------------------------------------------------------------------------------- hash seeds
def batch_outcomes(batch):
    out = []
    for sc in batch:
        x = Exec(sc)
        o = outcome(x, x.one(sc["proc"]), sc)
        out.append([o["status"], repr(sorted(o["files"].items())), repr(o["output"])])
    return out


def hash_run(sc):
    run = harness.Run()
    import hashlib
    here = batch_outcomes(sc["batch"])
    for k, seed in enumerate(sc["hashseeds"]):
        env = dict(os.environ, PYTHONHASHSEED=seed)
        if k and sc.get("optimize"):
            env["PYTHONOPTIMIZE"] = sc["optimize"]
        p = subprocess.run([sys.executable, "-m", "props.c15"], input=json.dumps(sc["batch"]), text=True,
                           cwd=str(harness.ROOT), env=env, capture_output=True, timeout=300)
        if p.returncode != 0:
            raise RuntimeError(f"hash-seed run failed: {p.stderr[-600:]}")
        how = f"PYTHONHASHSEED={seed}" + (f" PYTHONOPTIMIZE={env['PYTHONOPTIMIZE']}" if "PYTHONOPTIMIZE" in env else "")
        there = json.loads(p.stdout)
        for k, (a, b) in enumerate(zip(here, there)):
            if a != b:
                run.problem("hash-seed", f"command {k} has another result under {how}: "
                                         f"{str(a)[:300]} -> {str(b)[:300]}")
        run.stats["probe:hash-seeds"] += 1
    run.digest = hashlib.sha256(repr(here).encode()).hexdigest()[:24]
    run.nontrivial = True
    run.stats["processes"] += 2 * len(sc["batch"])
    return run


if __name__ == "__main__":
    from sim import loader
    loader.install()
    loader.fresh()
    loader.deactivate()
    real = os.dup(1)
    os.dup2(2, 1)
    result = json.dumps(batch_outcomes(json.load(sys.stdin)))
    os.write(real, result.encode())
    os._exit(0)
