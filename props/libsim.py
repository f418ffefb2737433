"""Shared by the library properties C08-C10: workloads of calls, references, statistics."""
import dis
import json
import logging
import re
import types

from sim import docs, harness, loader, threads

REAL = ["markflow library (all modules, executed from /repo's current sources)", "logging", "real Python threads"]
STUB = ["thread scheduler (baton at source lines or bytecode instructions of the package)", "locks of the package",
        "asynchronous exceptions (struck at entries of the package's functions)", "the host program and its handler"]
ASSUMES = ["threads are switched at source lines or instructions of the package; the standard library is atomic",
           "asynchronous exceptions strike at function entries, never inside finally/except blocks or __exit__"]


def pool(rng, n=3):
    """A few related texts: different ones, same length, same prefix, good and bad."""
    if rng.random() < .35:
        texts = docs.alike(rng, n)
    else:
        texts = [docs.text(rng, rng.choice((1, 1, 2, 3)), bad=.1) for _ in range(n)]
    if rng.random() < .35:
        # the same again, almost
        base = rng.choice(texts)
        if rng.random() < .5:
            base = texts[0] = docs.block(rng)
        for _ in range(rng.choice((1, 2, 3))):
            texts.append(docs.variant(rng, rng.choice((base, texts[-1]))))
    if rng.random() < .06:
        texts[-1] = docs.deep(rng, rng.randint(3, 9))
    if rng.random() < .12:
        texts[0] = docs.strange(rng, texts[0])
    if rng.random() < .3:
        t = rng.choice(texts)
        ws = t.split(" ")
        if len(ws) > 1:
            rng.shuffle(ws)
        texts.append(" ".join(ws))
    if rng.random() < .2:
        texts.append(rng.choice(docs.BAD))
    if rng.random() < .25:
        e = docs.solo(texts[0], 88)
        if e[0] == "ok":
            texts.append(e[1])
    return texts


def too_deep(rng):
    """Too deep for the stack the interpreter allows by default (but not for a much larger one), and not so close to
    the limit that the frames of whoever is watching make the difference."""
    for _ in range(6):
        mark, n = rng.choice((("* ", rng.randint(290, 450)), ("1. ", rng.randint(290, 450)), ("> * ", rng.randint(150, 220)),
                               ("* > ", rng.randint(150, 220)), ("- 1. ", rng.randint(150, 220))))
        if len({docs.solo(mark * k + "x\n", 88)[0] for k in (n - 12, n, n + 12)}) == 1:
            return mark * n + "x\n"
    return "x\n"


def call(rng, texts, widths):
    return {"op": "call", "text": rng.choice(texts), "width": rng.choice(widths)}


def widths(rng):
    return rng.choice(([88], [88, 20], [88, 40, 20], [88, "inf"], [30, 31]))


def reference(op):
    """What the call does alone in a fresh interpreter."""
    w = op.get("width", 88)
    return docs.solo(op["text"], float("inf") if w == "inf" else w)


_shared = None
FIXED = (type(None), bool, int, float, str, bytes, tuple, frozenset, type, types.ModuleType, types.FunctionType,
         types.BuiltinFunctionType, re.Pattern, logging.Logger, types.GenericAlias)


def changeable(value):
    """May this object change while it is bound to the same name?"""
    if isinstance(value, (list, dict, set, bytearray)):
        return True
    return not isinstance(value, FIXED) and type(value).__module__ not in ("typing", "abc", "enum", "__future__")


def shared_lines():
    """Lines of the package that touch state which outlives a call: where a switch is most likely to matter."""
    global _shared
    if _shared is not None:
        return _shared
    loader.install()
    prev = loader.ModuleSet({}, {})
    prev.save()
    try:
        mods = loader.fresh(main=False).modules
        names, attrs, funcs = {}, set(), set()
        for m in mods.values():
            names[m.__file__] = {n for n, v in vars(m).items() if not n.startswith("__") and changeable(v)}
            todo = [v for v in vars(m).values() if getattr(v, "__module__", None) == m.__name__]
            for v in todo:
                if isinstance(v, type):
                    attrs |= {n for n, a in vars(v).items() if not n.startswith("_abc") and not n.startswith("__")
                              and isinstance(a, (list, dict, set, bytearray))}
                    todo += [a for a in vars(v).values() if isinstance(a, types.FunctionType)]
                elif isinstance(v, types.FunctionType):
                    if any(changeable(d) for d in (*(v.__defaults__ or ()), *(v.__kwdefaults__ or {}).values())):
                        funcs.add(v.__code__)
        codes = [c for c in loader.all_code() if c.co_filename in names]
        for c in codes:
            names[c.co_filename] |= {i.argval for i in dis.get_instructions(c) if i.opname == "STORE_GLOBAL"}
        out = set()
        for c in codes:
            if c.co_name == "<module>":
                continue
            line = c.co_firstlineno
            for i in dis.get_instructions(c):
                line = i.positions.lineno or line
                if i.opname in ("LOAD_GLOBAL", "STORE_GLOBAL") and i.argval in names[c.co_filename] \
                        or i.opname in ("LOAD_ATTR", "STORE_ATTR") and i.argval in attrs or c in funcs:
                    out |= {(c.co_filename, line), (c.co_filename, line + 1)}
        _shared = out
    finally:
        prev.activate()
    return _shared


def sched_spec(rng, threads_ops, sc):
    """A random scheduling policy, tuned to the lengths and sites of the calls as they run alone."""
    seed = rng.getrandbits(30)
    r = rng.random()
    if r < .3:
        return {"seed": seed, "mode": "walk", "gap": rng.choice((2, 5, 20, 100, 500, 3000))}
    total, sites = 0, {}
    for ops in threads_ops:
        for op in ops:
            if op["op"] == "call":
                _, _, s, steps = threads.alone(op, sc)
                total += steps
                for k, v in s.items():
                    sites[k] = sites.get(k, 0) + v
    if r < .5 or not sites:
        return {"seed": seed, "mode": "points", "depth": rng.randint(1, 6), "total": max(2, total)}
    keys = sorted(sites)
    shared = [k for k in keys if k in shared_lines()]
    if shared and rng.random() < .5:
        keys = shared
    rare = [k for k in keys if sites[k] <= 8 and k[1] > 0] or keys
    hot = [list(rng.choice(rare if rng.random() < .6 else keys)) for _ in range(rng.choice((1, 2, 3, 5)))]
    return {"seed": seed, "mode": "hot", "sites": hot, "prob": rng.choice((.3, .7, 1.0))}


def finish(sim, sc, run, nontrivial):
    run.digest = sim.digest()
    run.frozen = {k: v for k, v in sc.items() if k != "sched"}
    run.frozen["switches"] = sim.log_switches()
    run.nontrivial = nontrivial
    run.stats["context_switches"] += sim.switch_count
    run.stats["scheduling_points"] += sim.steps
    for t in sim.threads:
        for r in t.results:
            if "res" in r:
                run.stats["calls"] += 1
                if r["struck"]:
                    run.stats["fault:async-exception"] += 1
    text = json.dumps(sc, ensure_ascii=False)
    run.sample = {"scenario": sc if len(text) < 1200 else text[:1200] + "...", "switches": sim.switch_count,
                  "digest": run.digest}
    return run


_ = (harness, loader)
