#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--replay FILE] [-v] [--only SUBSTR]"""
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
ENV = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg",
       "TQDM_DISABLE": "1", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1"}
if os.environ.get("SYMROB_CHILD") != "1":
    env = dict(os.environ, SYMROB_CHILD="1", **ENV)
    env.setdefault("MPLCONFIGDIR", "/tmp/symrob-mpl")
    env.pop("PYTHONPATH", None)
    os.execve(VENV, [VENV, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, VERIF)
import argparse  # noqa: E402
import importlib  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument("pid", nargs="?")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--replay")
ap.add_argument("-v", action="store_true")
ap.add_argument("--only")
ap.add_argument("--budget", type=float)
a = ap.parse_args()

try:  # no progress bars
    import tqdm
    import tqdm.auto

    class Quiet(tqdm.std.tqdm):
        def __init__(self, *a, **k):
            super().__init__(*a, **dict(k, disable=True))

    tqdm.tqdm = tqdm.auto.tqdm = Quiet
except Exception:
    pass
from symrob import runner  # noqa: E402

if a.replay:
    sys.exit(runner.replay_file(a.replay))
errs = runner.load_repo()
if errs and a.v:
    print("import errors:", errs)
mod = importlib.import_module(f"harness.{a.pid.lower()}")
rc = runner.run_property(a.pid, a.tier, int(os.environ.get("VERIF_SEED", "1")), mod, verbose=a.v, only=a.only,
                         total_budget=a.budget)
sys.stdout.flush()
os._exit(rc)
