#!/opt/venv/bin/python
"""run.py <property> [quick|thorough] | run.py <property> --replay FILE"""
import importlib, os, sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"; os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"): os.environ[v] = "1"
    os.execv(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vmon import core

def main():
    pid = sys.argv[1]
    arg = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = importlib.import_module("vmon.props." + pid.lower())
    if arg == "--replay": return core.replay(prop, sys.argv[3])
    return core.run(prop, arg, seed)

try:
    rc = main()
except SystemExit: raise
except BaseException as e:
    import traceback; traceback.print_exc(); rc = 4
sys.exit(rc)
