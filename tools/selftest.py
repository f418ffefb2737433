#!/usr/bin/env python3
"""Is the simulator deterministic here?  Runs the same simulations in fresh interpreters under different hash seeds and in
different orders and compares their event logs.  Usage: selftest.py [runs per property [properties...]]"""
import os
import subprocess
import sys

PY = "/opt/venv/bin/python"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHILD = """
import json, random, sys
sys.path.insert(0, sys.argv[1])
from sim import harness, loader
loader.install(); loader.fresh(); loader.deactivate()
out = {}
jobs = [(p, i) for p in sys.argv[4:] for i in range(int(sys.argv[2]))]
random.Random(sys.argv[3]).shuffle(jobs)
for p, i in jobs:
    mod = harness.load(p)
    if p == "C15" and i % 250 == 3:
        continue
    sc, run = harness.one(mod, p, 1, i, "quick")
    out[f"{p}/{i}"] = run.digest
print(json.dumps(out, sort_keys=True))
"""


def main():
    n = sys.argv[1] if len(sys.argv) > 1 else "6"
    props = sys.argv[2:] or [f"C{k:02}" for k in range(1, 18)]
    kids = []
    for k, seed in enumerate(("0", "1", "4242")):
        env = dict(os.environ, PYTHONHASHSEED=seed, PYTHONUTF8="1", PYTHONDONTWRITEBYTECODE="1")
        kids.append(subprocess.Popen([PY, "-c", CHILD, ROOT, n, str(k), *props], env=env, stdout=subprocess.PIPE,
                                     cwd=ROOT))
    import json
    outs = []
    for k in kids:
        data = k.communicate()[0]
        if k.returncode:
            sys.exit("selftest: a simulation failed")
        outs.append(json.loads(data.decode().splitlines()[-1]))
    bad = [j for j in outs[0] if any(o[j] != outs[0][j] for o in outs)]
    print(f"selftest: {len(outs[0])} simulations made {len(outs)} times, {len(bad)} differ {bad[:5]}")
    sys.exit(1 if bad else 0)


main()
