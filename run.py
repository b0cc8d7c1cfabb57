"""python run.py <property id> [quick|thorough] [--seed N] [--replay FILE] [--n N] [--procs N]"""
import importlib
import os
import sys

for k, v in {
    "PYTHONHASHSEED": "0", "TZ": "UTC", "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1",
}.items():
    os.environ.setdefault(k, v)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if __name__ == "__main__":
    prop = sys.argv[1]
    from vp import core
    mod = importlib.import_module("checks." + prop.lower())
    rc = core.main(mod, sys.argv[2:])
    sys.stdout.flush()
    os._exit(rc)
