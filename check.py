#!/usr/bin/env python3
"""python check.py PROPERTY [--tier quick|thorough] [--seed N] | --replay FILE"""

import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    from simlib import engine

    sys.path.insert(0, engine.REPO)
    if a.replay:
        sys.exit(engine.replay_main(os.path.abspath(a.replay)))
    sys.exit(engine.main(a.prop, a.tier, a.seed, a.jobs))
