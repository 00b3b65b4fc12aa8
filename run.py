#!/opt/venv/bin/python
"""run.py <property> [--tier quick|thorough] [--only SCENARIO] [-v]"""
import os
import sys

os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.getcwd())
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
import warnings

warnings.simplefilter("ignore")
import argparse

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
ap.add_argument("--only")
ap.add_argument("-j", type=int, default=8)
ap.add_argument("-v", action="store_true")
a = ap.parse_args()
from engine import runner

sys.exit(runner.main(a.prop, a.tier, a.seed, a.only, a.j, a.v))
