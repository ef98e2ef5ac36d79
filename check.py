#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough] [--replay FILE]

Decides one property of /verif/properties.jsonl by generated-input search.
Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=.. replay=..":
broken.  Exit 2: the check itself could not run (never a verdict).
"""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"

if os.environ.get("_VP_CHILD") != "1":
    env = dict(os.environ)
    env["_VP_CHILD"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
        env[v] = "1"
    for v in ("NUMBA_DISABLE_JIT", "NUMBA_BOUNDSCHECK", "PYTHONPATH", "NUMBA_CACHE_DIR",
              "PYTHONOPTIMIZE", "PYTHONWARNINGS", "NUMBA_OPT"):
        env.pop(v, None)
    exe = PY if os.path.exists(PY) else sys.executable
    os.execve(exe, [exe, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from vp import engine  # noqa: E402

sys.exit(engine.main(sys.argv[1:]))
