#!/opt/venv/bin/python
"""check.py C01 [--tier quick|thorough] [--replay FILE] [--seed N] [--runs N] [--workers N]

Decides one property of pygmm by deterministic simulation.  Exit 0: held on every run.
Exit 1 and "VIOLATION property=<id> replay=<file>": broken.  Exit 2: error of the check.
"""

import os
import sys

PY = "/opt/venv/bin/python"
FIXED = {
    "PYTHONHASHSEED": os.environ.get("DST_HASHSEED", "0"), "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "PYTHONDONTWRITEBYTECODE": "1", "PYTHONNOUSERSITE": "1", "DST_CHILD": "1", "LC_ALL": "C.UTF-8", "TZ": "UTC",
}


def reexec():
    if os.environ.get("DST_CHILD") == "1":
        return
    try:
        import ctypes

        ctypes.CDLL(None).personality(0x0040000)  # no address randomisation
    except Exception:
        pass
    env = dict(os.environ)
    for k in ("PYTHONPATH", "PYTHONOPTIMIZE", "PYTHONWARNINGS", "PYTHONSTARTUP", "PYTHONPYCACHEPREFIX", "PYTHONTRACEMALLOC",
              "PYTHONMALLOC", "PYTHONDEVMODE", "LANG", "LANGUAGE"):
        env.pop(k, None)
    env.update(FIXED)
    exe = PY if os.path.exists(PY) else sys.executable
    os.execve(exe, [exe, "-X", "frozen_modules=on", os.path.abspath(__file__)] + sys.argv[1:], env)


reexec()
sys.path[0] = os.path.dirname(os.path.abspath(__file__))

import argparse  # noqa: E402

from dst import driver  # noqa: E402


def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    a.add_argument("--replay")
    a.add_argument("--runs", type=int)
    a.add_argument("--cap", type=float)
    a.add_argument("--workers", type=int)
    a.add_argument("--hashes", help="write one line per run (index, execution hash) to this file")
    a.add_argument("--keep-going", action="store_true", help="report every violating run, do not minimise")
    args = a.parse_args()
    sys.exit(driver.main(args))


main()
