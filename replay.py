#!/usr/bin/env python3
"""replay.py <replay file>: run the recorded scenario again; exit 1 if it violates its property as recorded."""
import json
import os
import sys

PY = "/opt/venv/bin/python"
FIXED = {"PYTHONHASHSEED": "0", "PYTHONUTF8": "1", "PYTHONDONTWRITEBYTECODE": "1"}
here = os.path.dirname(os.path.abspath(__file__))
if any(os.environ.get(k) != v for k, v in FIXED.items()) or os.path.realpath(sys.executable) != os.path.realpath(PY):
    env = dict(os.environ, **FIXED)
    env.pop("PYTHONPATH", None)
    os.execve(PY, [PY, os.path.join(here, os.path.basename(sys.argv[0])), *map(os.path.abspath, sys.argv[1:])], env)
sys.path[0] = here

if __name__ == "__main__":
    from sim import harness, loader
    rec = json.loads(open(sys.argv[1]).read())
    loader.install()
    mod = harness.load(rec["property"])
    if hasattr(mod, "prepare"):
        mod.prepare("quick")
    run = mod.execute(rec["scenario"])
    for c, m in run.problems:
        print(f"  [{c}] {m}")
    same = any(c == rec["class"] for c, _ in run.problems)
    print("same event log as recorded:", run.digest == rec["digest"])
    print(("VIOLATION property=%s replay=%s" % (rec["property"], sys.argv[1])) if same else "does not reproduce here")
    os._exit(1 if same else 0)
