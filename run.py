#!/usr/bin/env python3
"""run.py C01 [--tier quick|thorough]     decide one property (exit 0 held, 1 violation)
   run.py --replay evidence/replay/X.json  run a reported case again"""
import argparse
import os
import sys

PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") and not os.environ.get("VERIF_REEXEC"):
    os.environ["VERIF_REEXEC"] = "1"
    os.execv(PY, [PY, "-W", "ignore"] + sys.argv)
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core

ap = argparse.ArgumentParser()
ap.add_argument("prop", nargs="?")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
ap.add_argument("--worker", type=int)
ap.add_argument("--out")
ap.add_argument("--replay")
a = ap.parse_args()
if a.replay:
    sys.exit(core.replay(a.replay))
if a.worker is not None:
    core.worker(a.prop, a.tier, a.seed, a.worker, a.out)
    sys.exit(0)
sys.exit(core.main(a.prop, a.tier, a.seed))
