#!/usr/bin/env python3
"""tools/mutate.py SEED COUNT LOG [--lanes N] [--repo DIR]: how strong are the checks?

Makes COUNT small random changes to the library (one each, in scratch copies), drops those the repository's own
tests notice, runs the quick checks of the properties anchored in the changed file on the others, and logs who
noticed. Survivors are either equivalent or point at something the checks do not see."""

import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
X = "xtructure/"
FILES = {  # file: (weight, properties to ask, in order)
    "hashtable/insert.py": (8, "P07 P10 P08 P11"),
    "hashtable/lookup.py": (6, "P07 P09 P11"),
    "hashtable/hash_utils.py": (6, "P08 P09 P07 P11"),
    "hashtable/insert_triton.py": (4, "P10"),
    "hashtable/insert_pallas.py": (4, "P10"),
    "hashtable/table.py": (3, "P07 P11"),
    "bgpq/_insert.py": (5, "P03 P05 P04"),
    "bgpq/_delete.py": (5, "P03 P04 P05"),
    "bgpq/_merge.py": (3, "P06 P04"),
    "bgpq/_utils.py": (2, "P03 P04"),
    "bgpq/bgpq.py": (3, "P03 P05"),
    "bgpq/merge_split/parallel.py": (5, "P06 P04"),
    "bgpq/merge_split/loop.py": (3, "P06"),
    "bgpq/merge_split/common.py": (2, "P06"),
    "stack/stack.py": (3, "P01"),
    "queue/queue.py": (3, "P02"),
    "io/io.py": (5, "P20 P18 P19 P23"),
    "core/xtructure_numpy/array_ops.py": (4, "P13"),
    "core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py": (4, "P12"),
    "core/xtructure_numpy/dataclass_ops/batch_ops.py": (5, "P24"),
    "core/xtructure_numpy/dataclass_ops/shape_ops.py": (3, "P24"),
    "core/xtructure_numpy/dataclass_ops/logical_ops.py": (3, "P24"),
    "core/xtructure_decorators/indexing.py": (4, "P13 P24"),
    "core/xtructure_decorators/hash.py": (5, "P17"),
    "core/xtructure_decorators/shape.py": (4, "P21 P24 P22"),
    "core/xtructure_decorators/default.py": (2, "P24 P20 P21"),
    "core/xtructure_decorators/structure_util.py": (2, "P24 P22"),
    "core/xtructure_decorators/bitpack_accessors.py": (5, "P25"),
    "core/xtructure_decorators/aggregate_bitpack/bitpack.py": (5, "P25 P20"),
    "core/xtructure_decorators/aggregate_bitpack/kernels.py": (3, "P25"),
    "core/xtructure_decorators/aggregate_bitpack/spec.py": (3, "P25"),
    "core/xtructure_decorators/aggregate_bitpack/__init__.py": (4, "P25"),
    "core/xtructure_decorators/aggregate_bitpack/view.py": (1, "P25 P21"),
    "core/dataclass.py": (5, "P15 P21 P22 P14"),
    "core/field_descriptors.py": (2, "P25 P24"),
}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["+"], ast.LShift: [">>"], ast.RShift: ["<<"], ast.BitAnd: ["|"], ast.BitOr: ["&", "^"],
       ast.BitXor: ["|"], ast.FloorDiv: ["*"], ast.Mod: ["//"]}
NAMES = {"logical_and": "logical_or", "logical_or": "logical_and", "minimum": "maximum", "maximum": "minimum", "less": "less_equal",
         "zeros": "ones", "any": "all", "all": "any", "cumsum": "zeros_like", "min": "max", "max": "min", "uint32": "uint8", "int32": "int8",
         "right_shift": "left_shift", "left_shift": "right_shift", "bitwise_and": "bitwise_or", "bitwise_or": "bitwise_xor"}


def mutants(text):
    """[(start, end, replacement, what)] character offsets."""
    tree = ast.parse(text)
    off = [0]
    for line in text.splitlines(True):
        off.append(off[-1] + len(line.encode()))
    raw = text.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    out = []

    def op_between(a, b, old_ops, new):
        s, e = span(a)[1], span(b)[0]
        mid = raw[s:e].decode()
        for o in old_ops:
            if o in mid:
                k = mid.index(o)
                out.append((s + k, s + k + len(o), new, f"{o} -> {new}"))
                return

    sym = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Add: "+", ast.Sub: "-", ast.Mult: "*",
           ast.LShift: "<<", ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.FloorDiv: "//", ast.Mod: "%"}

    def visit(n, skip):
        if isinstance(n, (ast.Raise, ast.Assert, ast.AnnAssign)):
            skip = True
        if isinstance(n, ast.arg) or isinstance(n, ast.JoinedStr):
            return
        if not skip:
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                for new in CMP[type(n.ops[0])]:
                    op_between(n.left, n.comparators[0], [sym[type(n.ops[0])]], new)
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                for new in BIN[type(n.op)]:
                    op_between(n.left, n.right, [sym[type(n.op)]], new)
            elif isinstance(n, ast.Constant) and type(n.value) is int and n.value < 1000:
                s, e = span(n)
                out.append((s, e, str(n.value + 1), f"{n.value} -> {n.value + 1}"))
                if n.value:
                    out.append((s, e, str(n.value - 1), f"{n.value} -> {n.value - 1}"))
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                s, e = span(n)
                out.append((s, e, str(not n.value), f"{n.value} -> {not n.value}"))
            elif isinstance(n, ast.Attribute) and n.attr in NAMES:
                s, e = span(n)
                out.append((e - len(n.attr), e, NAMES[n.attr], f"{n.attr} -> {NAMES[n.attr]}"))
            elif isinstance(n, ast.BoolOp):
                op_between(n.values[0], n.values[1], ["and", "or"], "or" if isinstance(n.op, ast.And) else "and")
            elif isinstance(n, ast.If):
                s, e = span(n.test)
                out.append((s, e, f"(not ({raw[s:e].decode()}))", "negated condition"))
            elif isinstance(n, ast.IfExp):
                s, e = span(n.test)
                out.append((s, e, f"(not ({raw[s:e].decode()}))", "negated condition"))
            elif isinstance(n, ast.Call) and len(n.args) == 3 and isinstance(n.func, ast.Attribute) and n.func.attr in ("where", "select"):
                (s1, e1), (s2, e2) = span(n.args[1]), span(n.args[2])
                out.append((s1, e2, (raw[s2:e2] + raw[e1:s2] + raw[s1:e1]).decode(), "swapped branches"))
            elif isinstance(n, (ast.Assign, ast.AugAssign)) and isinstance(n, ast.AugAssign):
                s, e = span(n)
                out.append((s, e, "pass", "dropped: " + raw[s:e].decode()[:60]))
        for c in ast.iter_child_nodes(n):
            visit(c, skip)

    for top in tree.body:
        if not isinstance(top, (ast.Import, ast.ImportFrom)):
            visit(top, False)
    seen, res = set(), []
    for m in out:
        if m[:3] not in seen:
            seen.add(m[:3])
            res.append(m)
    return raw, res


def run(cmd, cwd, env, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout, start_new_session=True)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return -9, "timeout"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("seed", type=int)
    ap.add_argument("count", type=int)
    ap.add_argument("log")
    ap.add_argument("--lanes", type=int, default=2)
    ap.add_argument("--only", default="")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--work", default="/tmp/m/mut")
    a = ap.parse_args()
    rnd = random.Random(a.seed)
    names = [f for f in FILES if a.only in f]
    todo = []
    pools = {}
    for f in names:
        raw, ms = mutants(open(f"{a.repo}/{X}{f}").read())
        rnd.shuffle(ms)
        pools[f] = (raw, ms)
    while len(todo) < a.count and any(p[1] for p in pools.values()):
        f = rnd.choices(names, [FILES[n][0] if pools[n][1] else 0 for n in names])[0]
        todo.append((f, pools[f][0], pools[f][1].pop()))
    lock = threading.Lock()
    it = iter(enumerate(todo))
    env0 = {**os.environ, "HOME": "/root", "JAX_PLATFORMS": "cpu", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"}

    def log(d):
        with lock, open(a.log, "a") as fh:
            fh.write(json.dumps(d) + "\n")

    def lane(k):
        while True:
            with lock:
                nxt = next(it, None)
            if nxt is None:
                return
            i, (f, raw, (s, e, new, what)) = nxt
            d = f"{a.work}/{a.seed}-{i}"
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(a.repo, d, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
            with open(f"{d}/{X}{f}", "wb") as fh:
                fh.write(raw[:s] + new.encode() + raw[e:])
            line = raw[:s].count(b"\n") + 1
            rec = {"i": i, "file": f, "line": line, "what": what, "text": raw.decode().splitlines()[line - 1].strip()[:110]}
            t = time.time()
            r = run(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-n", "4", "-p", "no:cacheprovider", "-p", "vp_seed", "--timeout=200",
                     "--ignore=tests/heap_test.py", "tests"], d, {**env0, "PYTHONPATH": f"{d}:/opt/vp/env"}, 900)
            rec["tests_s"] = round(time.time() - t)
            if r[0]:
                rec["result"] = "tests"
            else:
                rec["result"] = "SURVIVED"
                rec["checks"] = []
                for pid in FILES[f][1].split():
                    t = time.time()
                    r = run(["bash", f"{HERE}/run.sh", pid, "--tier", "quick"], HERE,
                            {**env0, "SIM_REPO": d, "SIM_WORKERS": "4", "VERIF_SEED": "1", "SIM_EVIDENCE": f"{d}/ev"}, 1500)
                    rec["checks"].append([pid, r[0], round(time.time() - t)])
                    if r[0] == 1:
                        rec["result"] = "caught " + pid
                        break
                    if r[0]:
                        rec["tail"] = r[1][-300:]
            log(rec)
            shutil.rmtree(d, ignore_errors=True)

    ts = [threading.Thread(target=lane, args=(k,)) for k in range(a.lanes)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
