#!/opt/veriftools/pyvenv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--only NAME] [--replay FILE]"""
import argparse
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, *sys.argv])
os.environ.setdefault("TZ", "UTC")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import runner  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default="quick")
ap.add_argument("--only")
ap.add_argument("--jobs", type=int)
ap.add_argument("--replay")
a = ap.parse_args()
if a.replay:
    sys.exit(runner.replay_file(a.replay))
mod = "harness." + a.prop.lower()
rc = runner.run_property(a.prop, mod, a.tier, only=a.only, jobs=a.jobs)
sys.stdout.flush()
os._exit(rc)
