#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current tree (see DESIGN.md)."""
import os
import sys

PY = "/opt/venv/bin/python"
FIXED = {"PYTHONHASHSEED": "0", "PYTHONUTF8": "1", "PYTHONDONTWRITEBYTECODE": "1"}
here = os.path.dirname(os.path.abspath(__file__))

if any(os.environ.get(k) != v for k, v in FIXED.items()) or os.path.realpath(sys.executable) != os.path.realpath(PY):
    env = dict(os.environ, **FIXED)
    env.pop("PYTHONPATH", None)
    os.execve(PY, [PY, os.path.join(here, os.path.basename(sys.argv[0])), *sys.argv[1:]], env)

sys.path[0] = here
os.chdir(here)

for stream in sys.stdout, sys.stderr:
    stream.reconfigure(errors="backslashreplace")

if __name__ == "__main__":
    from sim import harness
    try:
        code = harness.main(sys.argv[1].upper(), sys.argv[2:])
    except BaseException:       # noqa: BLE001
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
