#!/usr/bin/env python3
"""tools/determinism.py [--jobs N] [P01 ...]: the same tier and seed must be the same runs, whatever the number of
workers, the hash seed of the interpreters and the load. Compares the digest of all runs of two executions."""

import argparse
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("--jobs", default="12")
ap.add_argument("ids", nargs="*")
a = ap.parse_args()
ids = a.ids or sorted(json.loads(x)["id"] for x in open(f"{HERE}/properties.jsonl") if '"P9' not in x)
bad = 0
for pid in ids:
    got = []
    for workers, hs in (("8", "1"), ("3", "77")):
        subprocess.run(["bash", f"{HERE}/run.sh", pid, "--tier", "quick", "--seed", "5", "--jobs", a.jobs],
                       env={**os.environ, "SIM_WORKERS": workers, "PYTHONHASHSEED": hs}, capture_output=True)
        c = json.load(open(f"{HERE}/evidence/{pid}.json"))["coverage"]
        got.append((c["digest"], c["evaluations"], c["runs_skipped"]))
    print(pid, "same" if got[0][0] == got[1][0] else "DIFFERENT", got, flush=True)
    bad += got[0][0] != got[1][0]
sys.exit(bool(bad))
