"""C08: concurrent library calls return what each would return alone."""
from sim import harness, threads

from . import libsim

RUNS = {"quick": 2400, "thorough": 30000}
REAL, STUB, ASSUMES = libsim.REAL, libsim.STUB, libsim.ASSUMES
FROZEN = ("switches",)
RULE = ("2-4 threads make 1-3 calls each on a small pool of related texts and widths; the baton moves at source lines "
        "(one run in five: at bytecode instructions) by random walk, at few random points, or by parking threads at "
        "randomly chosen, preferably rare, lines; every result is compared with the same call alone in fresh modules; "
        "one run in six also interrupts one call; non-trivial: at least one switch while another thread was inside a "
        "call")


def gen(rng, i, tier):
    texts, ws = libsim.pool(rng), libsim.widths(rng)
    deep = rng.random() < .04
    if deep:
        texts = [min(texts, key=len), libsim.too_deep(rng)]
    ths = [{"ops": [libsim.call(rng, texts, ws) for _ in range(rng.choice((1, 1, 2, 3)))]}
           for _ in range(rng.choice((2, 2, 3, 4)))]
    sc = {"threads": ths, "grain": "instr" if not deep and rng.random() < .2 else "line",
          "root": rng.choice((30, 30, 10, 20, 50))}
    sc["sched"] = libsim.sched_spec(rng, [t["ops"] for t in ths], sc)
    if rng.random() < .16:
        op = rng.choice(ths)["ops"][0]
        op["strike"] = {"entry": rng.randint(1, 200), "exc": rng.choice(sorted(threads.STRIKES))}
    return sc


def execute(sc):
    run = harness.Run()
    refs = [[libsim.reference(op) if op["op"] == "call" else None for op in t["ops"]] for t in sc["threads"]]
    sim = threads.Sim(sc).run()
    for t, th in enumerate(sim.threads):
        for k, r in enumerate(th.results):
            if "res" not in r:
                continue
            got, want = r["res"], refs[t][k]
            if r["struck"] and got[0] == "err":
                continue
            if got != want:
                run.problem("not-alone", f"thread {t} call {k}: {libsim_short(got)} instead of {libsim_short(want)}")
            run.stats["probe:error-outcome"] += want[0] == "err"
    return libsim.finish(sim, sc, run, sim.switch_count > len(sc["threads"]))


def libsim_short(r):
    s = repr(r)
    return s if len(s) < 220 else s[:220] + "..."
