#!/opt/venv/bin/python
"""check.py C01 [--tier quick|thorough] [--replay FILE] [--part NAME] [--scale X] [--workers N]"""
import argparse
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from qv import env  # noqa: E402,F401  (sets up sys.path)
from qv import runner  # noqa: E402

a = argparse.ArgumentParser()
a.add_argument("property")
a.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
a.add_argument("--replay")
a.add_argument("--part", action="append")
a.add_argument("--scale", type=float, default=1.0)
a.add_argument("--workers", type=int)
o = a.parse_args()
try:
    rc = runner.main(o.property, o.tier, o.replay, o.part, o.scale, o.workers)
except SystemExit:
    raise
except BaseException:
    import traceback

    traceback.print_exc()
    rc = 2
sys.stdout.flush()
sys.stderr.flush()
os._exit(rc)
