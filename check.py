#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--seed N] [--cases N] [--workers N]
   check.py replay FILE
"""
import os
import sys

PY = "/opt/veriftools/pyvenv/bin/python"
_env = dict(PYTHONHASHSEED=os.environ.get("VERIF_HASHSEED", "0"), PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
            OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
if any(os.environ.get(k) != v for k, v in _env.items()) or (os.path.exists(PY) and os.environ.get("VERIF_REEXEC") != "1"):
    os.environ.update(_env)
    os.environ["VERIF_REEXEC"] = "1"
    os.environ.pop("PYTHONPATH", None)
    exe = PY if os.path.exists(PY) else sys.executable
    os.execv(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:])

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)

from sim import main  # noqa

if __name__ == "__main__":
    sys.exit(main.main(sys.argv[1:]))
