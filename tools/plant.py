#!/usr/bin/env python3
"""Confirms planted bugs: tools/plant.py [--no-tests] [--no-check] ID...

For each seeded/ID: copy /repo, apply patch.diff, run the stable tests there, run demo.sh with and
without the patch, and run the property's quick check against the patched copy."""

import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = {**os.environ, "HOME": "/root", "JAX_PLATFORMS": "cpu", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"}


def run(cmd, cwd, env=ENV, timeout=1200):
    t = time.time()
    p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr, time.time() - t


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    work = f"/tmp/m/p{os.getpid()}"
    base = f"{work}/clean"
    shutil.rmtree(base, ignore_errors=True)
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    shutil.copytree("/repo", base, symlinks=True)
    for bid in args:
        src = f"{HERE}/seeded/{bid}"
        meta = json.load(open(f"{src}/meta.json"))
        pid = meta["property"]
        copy = f"{work}/{bid}"
        demo = f"{work}/{bid}.demo"
        for d in (copy, demo):
            shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(base, copy, symlinks=True)
        shutil.copytree(src, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        out = {}
        r = run(["git", "apply", f"{src}/patch.diff"], copy)
        if r[0]:
            print(bid, "PATCH FAILED", r[1])
            continue
        r = run(["bash", f"{demo}/demo.sh"], base)
        out["demo_clean"] = r[0]
        if r[0]:
            print(r[1][-1500:])
        r = run(["bash", f"{demo}/demo.sh"], copy)
        out["demo_bug"] = r[0]
        out["demo_s"] = round(r[2])
        print(r[1].strip().splitlines()[-1:] if r[1].strip() else "")
        if "--no-tests" not in sys.argv:
            env = {**ENV, "PYTHONPATH": f"{copy}:/opt/vp/env"}
            r = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-n", "6", "-p", "no:cacheprovider", "-p", "vp_seed", "--timeout=300",
                     "--ignore=tests/heap_test.py", "tests"], copy, env)
            out["tests"] = r[1].strip().splitlines()[-1]
            for line in r[1].splitlines():
                if line.startswith("FAILED"):
                    print("   ", line[:150])
        if "--no-check" not in sys.argv:
            r = run(["bash", f"{HERE}/run.sh", pid, "--tier", "quick"], HERE, {**ENV, "SIM_REPO": copy, "VERIF_SEED": "1"})
            out["check"] = (r[0], [x for x in r[1].splitlines() if x.startswith("VIOLATION")][:1], round(r[2]))
        print(bid, pid, json.dumps(out), flush=True)
        shutil.rmtree(copy)
        shutil.rmtree(demo)
    shutil.rmtree(work)


main()
