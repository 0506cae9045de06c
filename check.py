#!/usr/bin/python3
"""check.py C07 [--tier quick|thorough] [--only sub]   |   check.py --replay FILE"""
import argparse
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from harness import boot, core  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument("prop", nargs="?")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--only", action="append")
ap.add_argument("--replay")
a = ap.parse_args()
os.chdir(HERE)
if a.replay:
    sys.exit(subprocess.call([boot.PY, "-W", "ignore", "-m", "harness.worker", "--replay", os.path.abspath(a.replay)], env=boot.child_env(), cwd=HERE))
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
sys.exit(core.main(a.prop.upper(), "thorough" if a.tier == "thorough" else "quick", seed, a.only))
