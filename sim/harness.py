"""Runs a property's simulations over many seeds on several workers and reports.

Exit 0: nothing found.  Exit 1: a violation, printed as VIOLATION property=<id> replay=<path>.  Exit 2: the machinery
(or the package under test as a whole) is broken or ran out of time; never counted as a pass.
"""
import collections
import importlib
import json
import multiprocessing
import os
import pathlib
import queue
import random
import signal
import sys
import time
import traceback

from . import kernel, loader, shrink

ROOT = pathlib.Path(__file__).resolve().parent.parent
TECHNIQUE = "deterministic simulation with fault injection, seeded search"


class Run:
    """What one simulated execution reports."""

    def __init__(self):
        self.problems = []          # (class, message)
        self.digest = ""
        self.nontrivial = False
        self.stats = collections.Counter()
        self.frozen = None          # the scenario with every scheduling decision made explicit
        self.sample = None

    def problem(self, cls, msg):
        self.problems.append((cls, msg))


def rng_for(prop, seed, i):
    return random.Random(f"{prop}/{seed}/{i}")


def load(prop):
    return importlib.import_module(f"props.{prop.lower()}")


def one(mod, prop, seed, i, tier):
    rng = rng_for(prop, seed, i)
    sc = mod.gen(rng, i, tier)
    return sc, mod.execute(sc)


def _worker(mod, prop, seed, tier, idxs, total, out, deadline):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    agg = collections.Counter()
    digests, states = set(), set()
    n = nontrivial = mismatch = 0
    samples = []
    finished = True
    try:
        while True:
            with idxs.get_lock():
                i = idxs.value
                idxs.value += 1
            if i >= total:
                break
            if time.monotonic() > deadline:
                finished = False
                break
            try:
                sc, run = one(mod, prop, seed, i, tier)
            except loader.RepoUnusable:
                raise
            except BaseException as e:      # noqa: BLE001
                raise RuntimeError(f"run {i}: {type(e).__name__}: {e}\n{traceback.format_exc()}")
            n += 1
            agg.update(run.stats)
            if run.nontrivial:
                nontrivial += 1
                digests.add(run.digest)
            states.add(run.digest)
            if len(samples) < 2 and run.nontrivial and run.sample is not None:
                samples.append({"run": i, **run.sample})
            if i % 29 == 7 and not run.problems:
                again = mod.execute(run.frozen or sc)
                agg["double_runs"] += 1
                if again.digest != run.digest:
                    mismatch += 1
            if run.problems:
                out.put(("problem", i, run.frozen or sc, run.problems, run.digest))
        out.put(("done", n, nontrivial, dict(agg), digests, len(states), samples, mismatch, finished))
    except loader.RepoUnusable as e:
        out.put(("unusable", str(e)))
    except BaseException as e:      # noqa: BLE001
        out.put(("error", f"{e}"))
    finally:
        out.close()
        out.join_thread()
        os._exit(0)


def in_child(fn, timeout):
    """fn() in a forked child; its picklable result, or None when it failed or took too long."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = json.dumps(fn()).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:       # noqa: BLE001
            os.write(2, traceback.format_exc().encode())
        os._exit(0)
    os.close(w)
    import select
    data = b""
    end = time.monotonic() + timeout
    while True:
        left = end - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            data = b""
            break
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            data += chunk
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(data) if data else None


def known_findings(prop):
    path = ROOT / "known-findings.txt"
    out = []
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith("known: "):
                rec = json.loads(line[7:])
                if rec["property"] == prop:
                    out.append(rec)
    return out


def matches_known(known, sc, problems):
    """A problem is known only if the class agrees and the recorded input is what the scenario feeds."""
    for rec in known:
        if all(cls == rec["class"] for cls, _ in problems) and all(
                s in json.dumps(sc, ensure_ascii=False) for s in rec["contains"]):
            return rec
    return None


def minimise(mod, sc, cls, budget):
    def work():
        def test(cand):
            r = mod.execute(cand)
            return any(c == cls for c, _ in r.problems)
        s = shrink.Shrinker(test, budget, getattr(mod, "FROZEN", ()))
        best = s.run(sc)
        r = mod.execute(best)
        final = r.frozen or best
        r2 = mod.execute(final)
        return {"scenario": final, "problems": r2.problems, "digest": r2.digest, "tries": s.tries}
    res = in_child(work, budget + 60)
    if res and any(c == cls for c, _ in res["problems"]):
        return res
    return None


def reproduce(mod, sc, cls):
    def work():
        r = mod.execute(sc)
        return {"problems": r.problems, "digest": r.digest}
    res = in_child(work, 120)
    return res if res and any(c == cls for c, _ in res["problems"]) else None


def main(prop, argv):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    workers = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    mod = load(prop)
    total = int(os.environ.get("VERIF_RUNS", "0")) or mod.RUNS[tier]
    limit = {"quick": 600.0, "thorough": 3000.0}.get(tier, 600.0)
    print(f"{prop}: seed={seed} tier={tier} runs={total} workers={workers} repo={loader.REPO}", flush=True)
    t0 = time.monotonic()
    try:
        loader.install()
        loader.fresh()
        loader.deactivate()
        if hasattr(mod, "prepare"):
            mod.prepare(tier)
    except loader.RepoUnusable as e:
        print(f"ERROR: the package cannot be loaded: {e}")
        return 2
    ctx = multiprocessing.get_context("fork")
    idxs = ctx.Value("l", 0)
    out = ctx.Queue()
    procs = [ctx.Process(target=_worker, args=(mod, prop, seed, tier, idxs, total, out, t0 + limit))
             for _ in range(workers)]
    for p in procs:
        p.start()
    known = known_findings(prop)
    known_hits = collections.Counter()
    found, done, errors = None, 0, []
    n = nontrivial = mismatch = 0
    agg = collections.Counter()
    digests = set()
    samples = []
    complete = True
    hard = t0 + limit + 120
    while done < workers:
        try:
            msg = out.get(timeout=1.0)
        except queue.Empty:
            if time.monotonic() > hard:
                errors.append("workers did not finish in time")
                break
            if not any(p.is_alive() for p in procs):
                try:
                    msg = out.get(timeout=2.0)
                except queue.Empty:
                    errors.append("a worker died")
                    break
            else:
                continue
        if msg[0] == "problem":
            _, i, sc, problems, digest = msg
            rec = matches_known(known, sc, problems)
            if rec:
                known_hits[rec["what"]] += 1
                continue
            if found is None or i < found[0]:
                found = (i, sc, problems, digest)
            with idxs.get_lock():
                idxs.value = total                   # nobody starts anything new
        elif msg[0] == "done":
            done += 1
            n += msg[1]
            nontrivial += msg[2]
            agg.update(msg[3])
            digests |= msg[4]
            samples.extend(msg[6][:1])
            mismatch += msg[7]
            complete = complete and msg[8]
        else:
            errors.append(f"{msg[0]}: {msg[1]}")
            done += 1
    for p in procs:
        if p.is_alive():
            p.join(0.5)
        if p.is_alive():
            p.kill()
    explored = time.monotonic() - t0
    code = 0
    violation = None
    if found:
        i, sc, problems, digest = found
        cls = problems[0][0]
        rep = reproduce(mod, sc, cls) or reproduce(mod, sc, cls)
        if rep is None:
            errors.append(f"run {i} reported {problems[:2]} but it does not reproduce in a fresh process")
        else:
            small = minimise(mod, sc, cls, 25.0 if tier == "quick" else 90.0)
            best = small or {"scenario": sc, "problems": rep["problems"], "digest": rep["digest"], "tries": 0}
            d = ROOT / "replays"
            d.mkdir(exist_ok=True)
            path = d / f"{prop}-seed{seed}-run{i}.json"
            path.write_text(json.dumps({
                "property": prop, "seed": seed, "run": i, "class": cls, "problems": best["problems"],
                "digest": best["digest"], "shrink_tries": best["tries"], "scenario": best["scenario"]},
                indent=1, ensure_ascii=True, sort_keys=True) + "\n")
            violation = (cls, best["problems"], path)
    if errors and not violation:
        for e in errors[:3]:
            print("ERROR:", e)
        code = 2
    elif violation:
        code = 1
    elif not complete:
        print(f"ERROR: only {n} of {total} runs were made in the time allowed")
        code = 2
    wall = time.monotonic() - t0
    faults = {k[6:]: v for k, v in sorted(agg.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(agg.items()) if k.startswith("probe:")}
    rest = {k: v for k, v in sorted(agg.items()) if ":" not in k}
    coverage = {
        "evaluations": n, "distinct_nontrivial": len(digests), "rule": mod.RULE, "samples": samples[:4],
        "nontrivial_runs": nontrivial, "runs_per_hour": int(n / explored * 3600) if explored else 0,
        "seeds": f"one pseudo-random stream per run, derived from VERIF_SEED={seed} and the run number 0..{total - 1}",
        "simulated_seconds": round(rest.pop("sim_ms", 0) / 1000.0, 3),
        "faults_fired": faults, "rare_conditions_reached": probes, "counters": rest,
        "distinct_measure": "SHA-256 of the run's event log: every system call with arguments and outcome (or every "
                            "context switch, record and result), all faults, exit statuses, final files",
        "replay_mismatches": mismatch, "workers": workers,
        "real_components": mod.REAL, "stub_components": mod.STUB,
    }
    if known_hits:
        coverage["known_findings_hit"] = dict(known_hits)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
          "assumptions": mod.ASSUMES, "wall_s": round(wall, 2), "violations": 1 if violation else 0}
    if os.environ.get("VERIF_NO_EVIDENCE") != "1":
        ed = ROOT / "evidence"
        ed.mkdir(exist_ok=True)
        (ed / f"{prop}.json").write_text(json.dumps(ev, indent=1, sort_keys=True, default=str) + "\n")
    for rec in known:
        print(f"KNOWN-FINDING: property={prop} {rec['what']}")
    print(f"{prop}: {n} runs ({nontrivial} non-trivial, {len(digests)} distinct) in {wall:.1f}s, faults {faults}")
    if mismatch:
        print(f"note: {mismatch} of {agg['double_runs']} runs made twice differed")
    if violation:
        cls, problems, path = violation
        for c, m in problems[:4]:
            print(f"  [{c}] {m}"[:1500])
        print(f"VIOLATION property={prop} replay={path}", flush=True)
    return code


_ = (kernel, sys)
