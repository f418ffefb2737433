"""C10: a call's result depends only on its input, never on what ran before."""
from sim import docs, harness, threads

from . import libsim
from .c08 import libsim_short

RUNS = {"quick": 2200, "thorough": 27500}
REAL, STUB, ASSUMES = libsim.REAL, libsim.STUB, libsim.ASSUMES
FROZEN = ("switches",)
RULE = ("one thread makes 3-9 (sometimes up to 120) calls on a pool of related texts and widths; a third of the calls (nearly all in the long histories) are interrupted at a "
        "random function entry (Ctrl-C, failed allocation, stack exhaustion), others fail by themselves; result and "
        "diagnostics of every call are compared with the same call alone in fresh modules; the host may change its log levels between calls; non-trivial: a call was "
        "interrupted or failed before the last one")


def gen(rng, i, tier):
    texts, ws = libsim.pool(rng, rng.choice((1, 2, 3))), libsim.widths(rng)
    sc = {"threads": [{"ops": [libsim.call(rng, texts, ws) for _ in range(rng.randint(3, 9))]}], "switches": [],
          "root": rng.choice((10, 20, 30, 40)), "levels": {}}
    if rng.random() < .3:
        sc["levels"]["markflow"] = rng.choice((10, 20, 30))
    share = .35
    if rng.random() < .07:
        # too deep for the stack the interpreter allows by default, but not for a much larger one
        texts = [rng.choice(texts), libsim.too_deep(rng), libsim.too_deep(rng), docs.deep(rng, rng.randint(10, 60))]
        sc["threads"][0]["ops"] = [libsim.call(rng, texts, ws) for _ in range(rng.randint(3, 6))]
    if rng.random() < .06:
        # a long history that hardly ever gets to the end of a call
        share = .95
        texts = [min(texts, key=len)]
        sc["threads"][0]["ops"] = [libsim.call(rng, texts, ws) for _ in range(rng.choice((30, 60, 120)))]
    for op in sc["threads"][0]["ops"][:-1]:
        if op["op"] == "call" and rng.random() < share:
            res, _, _, _ = threads.alone(op, sc)
            n = max(1, res["entries"])
            entry = rng.randint(1, n) if rng.random() < .7 else rng.randint(max(1, n // 2), n)
            op["strike"] = {"entry": entry, "exc": rng.choice(sorted(threads.STRIKES))}
    if rng.random() < .25:
        ops = sc["threads"][0]["ops"]
        for _ in range(rng.choice((1, 1, 2))):
            ops.insert(rng.randint(0, len(ops) - 1), {"op": "level", "logger": rng.choice(("", "", "markflow", "markflow.parser")),
                                                      "level": rng.choice((10, 10, 20, 30, 40))})
    return sc


def references(sc):
    """What each call does alone, in an interpreter whose host has set the levels that hold at the call."""
    now = dict(sc, levels=dict(sc.get("levels", {})))
    out = []
    for op in sc["threads"][0]["ops"]:
        if op["op"] == "level":
            if op["logger"]:
                now["levels"][op["logger"]] = op["level"]
            else:
                now["root"] = op["level"]
        out.append((libsim.reference(op), threads.alone(op, now)[1]) if op["op"] == "call" else None)
    return out


def execute(sc):
    run = harness.Run()
    refs = references(sc)
    sim = threads.Sim(sc).run()
    disturbed = 0
    for k, r in enumerate(sim.threads[0].results):
        if refs[k] is None:
            continue
        want, recs = refs[k]
        got = r["res"]
        if r["struck"] and got[0] == "err":
            disturbed += 1
            continue
        if got != want:
            run.problem("history", f"call {k} gave {libsim_short(got)}; alone in a fresh interpreter: "
                                   f"{libsim_short(want)}")
        mine = sim.call_records(0, k)
        if mine != recs and not r["struck"]:
            run.problem("history-diagnostics", f"call {k} emitted {len(mine)} records, alone {len(recs)}: "
                                               f"{libsim_short([m for m in mine if m not in recs][:2])} / "
                                               f"{libsim_short([m for m in recs if m not in mine][:2])}")
        disturbed += want[0] == "err"
    run.stats["probe:after-disturbance"] += disturbed > 0
    return libsim.finish(sim, sc, run, disturbed > 0)
