"""C09: formatting never disturbs the host program's logging; each call's diagnostics are its own."""
from sim import harness, threads

from . import libsim
from .c08 import libsim_short

RUNS = {"quick": 2600, "thorough": 32500}
REAL, STUB, ASSUMES = libsim.REAL, libsim.STUB, libsim.ASSUMES
FROZEN = ("switches",)
RULE = ("1-3 threads format texts (some calls fail, some are interrupted) while 0-2 host threads log at all levels, by "
        "method and by level constant, and inspect the logging state, under random host settings (levels, "
        "handlers on the root logger or on named ones, levels of handlers, logging.disable); every host "
        "record must arrive once at its level, the state must be what the host set at every inspection and at the end, "
        "and each call's records must equal those it emits alone (a prefix of them if it was interrupted); "
        "non-trivial: a switch, an error or an interrupt happened while a call was in progress")


def gen(rng, i, tier):
    texts, ws = libsim.pool(rng), libsim.widths(rng)
    if rng.random() < .5:
        texts.append(rng.choice(("#H\n\n> a\n\nT\n===\n", "> * a\n>   * b\n\n#H\n", "> q\nT\n===\n", "* #H\n* > #I\n")))
    ths = [{"ops": [libsim.call(rng, texts, ws) for _ in range(rng.choice((1, 2, 3)))]}
           for _ in range(rng.choice((1, 1, 2, 3)))]
    nid = 0
    for _ in range(rng.choice((0, 1, 1, 2))):
        ops = []
        for _ in range(rng.randint(2, 8)):
            nid += 1
            if rng.random() < .3:
                ops.append({"op": "probe"})
            else:
                ops.append({"op": "log", "logger": rng.choice(("host", "host.a")), "id": nid, "const": rng.random() < .4,
                            "level": rng.choice(("DEBUG", "INFO", "INFO", "WARNING", "ERROR"))})
        ths.append({"ops": ops})
    for t in ths:                                  # hosts also log and look around between their own calls
        if t["ops"][0]["op"] == "call" and rng.random() < .5:
            nid += 1
            t["ops"].append({"op": "log", "logger": "host", "id": nid, "const": rng.random() < .5, "level": "INFO"})
            t["ops"].append({"op": "probe"})
    levels = {}
    for name, p in (("host", .4), ("host.a", .2), ("markflow", .4), ("markflow.reformat_markdown", .25),
                    ("markflow.parser", .1)):
        if rng.random() < p:
            levels[name] = rng.choice((10, 20, 30, 40))
    sc = {"threads": ths, "grain": "instr" if rng.random() < .1 else "line", "root": rng.choice((10, 20, 30, 40)),
          "levels": levels}
    r = rng.random()
    if r < .2:
        sc["handlers"] = "stderr"                  # a host that logs to sys.stderr, whatever that is
    elif r < .42:
        sc["handlers"] = "named"                   # a host that leaves the root logger alone
    if rng.random() < .3:
        sc["early"] = True                         # configured before the library is imported
    if rng.random() < .1:
        sc["disable"] = rng.choice((10, 20, 30, 40))
    if rng.random() < .1:
        sc["hlevel"] = rng.choice((10, 20, 30, 40))
    sc["sched"] = libsim.sched_spec(rng, [t["ops"] for t in ths], sc)
    if rng.random() < .35:
        ops = [o for t in ths for o in t["ops"] if o["op"] == "call"]
        op = rng.choice(ops)
        res, _, _, _ = threads.alone(op, sc)
        op["strike"] = {"entry": rng.randint(1, max(1, res["entries"])), "exc": rng.choice(sorted(threads.STRIKES))}
    return sc


def execute(sc):
    run = harness.Run()
    refs = {}
    for t, th in enumerate(sc["threads"]):
        for k, op in enumerate(th["ops"]):
            if op["op"] == "call":
                res, recs, _, _ = threads.alone(op, sc)
                refs[t, k] = (res["res"], recs)
    sim = threads.Sim(sc).run()
    for cls, msg in sim.problems:
        run.problem(cls, msg)
    struck = failed = False
    for (t, k), (want, recs) in refs.items():
        r = sim.threads[t].results[k]
        got = sim.call_records(t, k)
        ok = got == recs
        if r["struck"]:
            struck = True
            ok = got == recs[:len(got)]
        failed = failed or want[0] == "err"
        if not ok:
            diff = next((i for i, (a, b) in enumerate(zip(got, recs)) if a != b), min(len(got), len(recs)))
            run.problem("diagnostics", f"thread {t} call {k} emitted {len(got)} records, {len(recs)} when alone; first "
                                       f"difference at {diff}: {libsim_short(got[diff:diff + 1])} instead of "
                                       f"{libsim_short(recs[diff:diff + 1])}")
        run.stats["records_compared"] += len(recs)
    run.stats["probe:interrupted-call"] += struck
    run.stats["probe:failing-call"] += failed
    run.stats["probe:host-records"] += sum(1 for r in sim.records if r[2].startswith("host"))
    return libsim.finish(sim, sc, run, struck or failed or sim.switch_count > len(sc["threads"]))
