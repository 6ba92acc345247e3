"""mkbug.py SPEC.py: SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)...], needs, what, demo)].
Writes seeded/<id>/ (patch.diff against /repo HEAD, demo.sh, demo.py, meta.json)."""

import difflib
import json
import os
import runpy
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = """#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu HOME="${HOME:-/root}"
exec timeout -s KILL 150 /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
"""
base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
only = sys.argv[2:]
for b in runpy.run_path(sys.argv[1])["BUGS"]:
    if only and b["id"] not in only:
        continue
    d = f"{HERE}/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    files = {}
    for path, old, new in b["edits"]:
        text = files.get(path) or open(f"/repo/{path}").read()
        assert text.count(old) == 1, (b["id"], path, text.count(old), old)
        files[path] = text.replace(old, new)
    patch = ""
    for path, text in files.items():
        before = open(f"/repo/{path}").read()
        patch += f"diff --git a/{path} b/{path}\n" + "".join(
            difflib.unified_diff(before.splitlines(True), text.splitlines(True), f"a/{path}", f"b/{path}"))
        # removed or changed lines must be the original repository's
        root = subprocess.run(["git", "-C", "/repo", "show", f"{base}:{path}"], capture_output=True, text=True).stdout.splitlines()
        for line in patch.splitlines():
            if line.startswith("-") and not line.startswith("---") and line[1:] not in root:
                print("  NOT ORIGINAL:", b["id"], line)
    open(f"{d}/patch.diff", "w").write(patch)
    open(f"{d}/demo.sh", "w").write(DEMO_SH)
    open(f"{d}/demo.py", "w").write(b["demo"].lstrip("\n"))
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(f"{d}/meta.json", "w"), indent=1)
    r = subprocess.run(["git", "-C", "/repo", "apply", "--check", f"{d}/patch.diff"], capture_output=True, text=True)
    print(b["id"], "ok" if r.returncode == 0 else r.stderr)
