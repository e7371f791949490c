#!/usr/bin/env python3
"""run.py <property> [quick|thorough] [--only NAME]   |   run.py --replay FILE"""
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("VTK_SMP_BACKEND_IN_USE", "Sequential")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

if __name__ == "__main__":
    from symx import runner

    a = sys.argv[1:]
    if a and a[0] == "--replay":
        sys.exit(runner.main_replay(a[1]))
    if a and a[0] == "--selftest":
        sys.exit(runner.selftest())
    only = None
    if "--only" in a:
        i = a.index("--only")
        only = a[i + 1]
        del a[i : i + 2]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(runner.main(a[0], tier, only))
