"""Seeded search over simulated runs: job distribution, minimisation, replay, evidence.

A *world* module provides

    ID, LEVEL, TECHNIQUE, RULE, COMPONENTS, ASSUMPTIONS
    jobs(tier, seed)  -> [{"env": {...}, "cfg": {...}, "seeds": [...]}]
    gen(cfg, seed)    -> case (JSON): everything the run depends on
    run(case)         -> {"steps", "faults", "ops", "states", ...}; raises Violation/Skip
    shrink(case)      -> iterator of smaller candidate cases          (optional)

Runs execute in worker processes, one environment per process.  The set of runs is a
function of (tier, seed) alone: neither worker count nor speed changes any verdict.
"""

from __future__ import annotations

import importlib
import json
import os
import queue
import subprocess
import sys
import threading
import time
import traceback

from .util import h64
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
PY = sys.executable

BASE_ENV = {
    "JAX_PLATFORMS": "cpu",
    "PYTHONDONTWRITEBYTECODE": "1",
    "TF_CPP_MIN_LOG_LEVEL": "3",
    "JAX_ENABLE_COMPILATION_CACHE": "0",
    "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
}
CASE_LIMIT = {"quick": 200.0, "thorough": 400.0}
TOTAL_LIMIT = {"quick": 560.0, "thorough": 3.0 * 3600}


def world(pid: str):
    from .worlds import REGISTRY

    return importlib.import_module("simlib.worlds." + REGISTRY[pid]).make(pid)


def child_env(extra):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("XTRUCTURE_", "SIM_", "JAX_", "LD_PRELOAD"))}
    env.update(BASE_ENV)
    env["PYTHONPATH"] = REPO + os.pathsep + VERIF
    env["SIM_REPO"] = REPO
    env.setdefault("PYTHONHASHSEED", "0")
    env["HOME"] = env.get("HOME", "/root")
    env.update({k: str(v) for k, v in extra.items()})
    return env


# ----------------------------------------------------------------------------- worker


def _prepare_process():
    """Seams that must be in place before the code under test is imported."""
    be = os.environ.get("SIM_BACKEND")
    if be:
        import jax

        jax.default_backend = lambda: be
    if os.environ.get("SIM_X64"):
        import jax

        jax.config.update("jax_enable_x64", True)
    bits = os.environ.get("SIM_WEAK_HASH")
    if bits:
        # Fault: a hash function that maps almost everything to the same few values.
        # All hashing goes through one mixing function, so every path stays consistent.
        import xtructure.core.xtructure_decorators.hash as H

        orig = getattr(H, "_avalanche32", None)
        if orig is not None:
            mask = (1 << int(bits)) - 1
            H._avalanche32 = lambda h: orig(h) & mask


def run_case(w, case):
    """Returns (status, payload)."""
    from .util import Skip, Violation

    try:
        return "ok", w.run(case)
    except Violation as v:
        return "violation", {"kind": v.kind, "detail": v.detail[:4000]}
    except Skip as s:
        return "skip", {"reason": str(s)}
    except (ImportError, OSError, MemoryError, SyntaxError, NameError):
        raise  # this sandbox or this check is broken: no verdict
    except Exception as e:
        # The library handed back something the checks cannot even read (a deleted buffer,
        # a result of another shape, ...). On a correct tree no run gets here.
        tb = traceback.extract_tb(e.__traceback__)
        return "violation", {"kind": "malformed", "detail": (
            f"{type(e).__name__}: {str(e)[:600]} at {os.path.basename(tb[-1].filename)}:{tb[-1].lineno}; called from "
            + " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[:-1]) if "simlib" in f.filename)[:600])}


def worker_main():
    """Reads jobs as JSON lines on stdin, writes result lines on fd given in argv."""
    out = os.fdopen(int(sys.argv[2]), "w", buffering=1)

    def emit(**kw):
        out.write(json.dumps(kw) + "\n")
        out.flush()

    pid = sys.argv[1]
    _prepare_process()
    w = world(pid)
    for line in sys.stdin:
        job = json.loads(line)
        emit(ev="start", job=job["id"])
        stats = new_stats()
        try:
            for s in job["seeds"]:
                emit(ev="case", job=job["id"], seed=s)
                case = w.gen(job["cfg"], s)
                case["env"] = job["env"]
                status, res = run_case(w, case)
                merge(stats, status, res, case)
                if status == "violation":
                    emit(ev="violation", job=job["id"], seed=s, case=case, res=res)
                    break
            stats["states"] = sorted(stats["states"])
            stats["fps"] = sorted(stats["fps"])
            emit(ev="done", job=job["id"], stats=stats)
        except Exception:
            emit(ev="error", job=job["id"], trace=traceback.format_exc()[-6000:])
    emit(ev="exit")


def new_stats():
    return {"runs": 0, "skips": 0, "steps": 0, "faults": {}, "ops": {}, "states": set(), "fps": set(),
            "extra": {}, "sample": None, "skip_reasons": {}}


def merge(st, status, res, case):
    st["runs"] += 1
    if status == "skip":
        st["skips"] += 1
        st["skip_reasons"][res["reason"][:80]] = st["skip_reasons"].get(res["reason"][:80], 0) + 1
        return
    if status != "ok":
        return
    st["steps"] += res.get("steps", 0)
    for k in ("faults", "ops", "extra"):
        for n, v in res.get(k, {}).items():
            st[k][n] = st[k].get(n, 0) + v
    if res.get("states"):
        from .util import h64

        st["fps"].add("%016x" % h64(sorted(res["states"]), sorted(res.get("ops", {}).items()),
                                    sorted(res.get("faults", {}).items())))
    if len(st["states"]) < 60000:
        st["states"].update(res.get("states", ()))
    if st["sample"] is None:
        st["sample"] = case


# ----------------------------------------------------------------------------- parent


class Worker:
    def __init__(self, pid, env):
        r, wfd = os.pipe()
        self.proc = subprocess.Popen(
            [PY, "-m", "simlib.engine_worker", pid, str(wfd)],
            stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL if not os.environ.get("SIM_DEBUG") else None,
            env=child_env(env), cwd=VERIF, pass_fds=(wfd,), text=True,
        )
        os.close(wfd)
        self.f = os.fdopen(r)
        self.q = queue.Queue()
        threading.Thread(target=self._read, daemon=True).start()

    def _read(self):
        try:
            for line in self.f:
                self.q.put(json.loads(line))
        except Exception:
            pass
        self.q.put(None)

    def send(self, job):
        try:
            self.proc.stdin.write(json.dumps(job) + "\n")
            self.proc.stdin.flush()
        except (BrokenPipeError, OSError):
            pass

    def close(self):
        try:
            self.proc.stdin.close()
        except OSError:
            pass
        try:
            self.proc.kill()
        except OSError:
            pass
        self.proc.wait()
        try:
            self.f.close()
        except OSError:
            pass


def _env_key(env):
    return json.dumps(env, sort_keys=True)


class Search:
    def __init__(self, pid, tier, seed, jobs_limit=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.w = world(pid)
        self.jobs = self.w.jobs(tier, seed)
        if jobs_limit:
            self.jobs = self.jobs[:jobs_limit]
        for i, j in enumerate(self.jobs):
            j["id"] = i
        self.total = new_stats()
        self.samples = []
        self.violations = []
        self.errors = []
        self.done = 0
        self.t0 = time.time()
        self.deadline = self.t0 + TOTAL_LIMIT[tier]
        self.stop = False
        self.lock = threading.Lock()
        self.results = {}

    def _groups(self):
        g = {}
        for j in self.jobs:
            g.setdefault(_env_key(j["env"]), []).append(j)
        return g

    def search(self):
        groups = {k: list(v) for k, v in self._groups().items()}
        nw = min(int(os.environ.get("SIM_WORKERS", 0)) or (os.cpu_count() or 4), len(self.jobs))
        threads = [threading.Thread(target=self._drive, args=(groups,)) for _ in range(max(nw, 1))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        for i in sorted(self.results):
            st = self.results[i]
            for k in ("runs", "skips", "steps"):
                self.total[k] += st[k]
            for k in ("faults", "ops", "extra", "skip_reasons"):
                for n, v in st[k].items():
                    self.total[k][n] = self.total[k].get(n, 0) + v
            self.total["states"].update(st["states"])
            self.total["fps"].update(st["fps"])
            if st["sample"] is not None and len(self.samples) < 3:
                self.samples.append(st["sample"])
        self.violations.sort(key=lambda v: (v["job"], 0))

    def _next(self, groups, current):
        with self.lock:
            if self.stop or time.time() > self.deadline:
                return None
            if current is not None and groups.get(current):
                return current, groups[current].pop(0)
            best = max((k for k in groups if groups[k]), key=lambda k: (len(groups[k]), k), default=None)
            if best is None:
                return None
            return best, groups[best].pop(0)

    def _drive(self, groups):
        worker, current = None, None
        try:
            while True:
                nxt = self._next(groups, current)
                if nxt is None:
                    return
                key, job = nxt
                if worker is None or key != current:
                    if worker:
                        worker.close()
                    worker, current = Worker(self.pid, job["env"]), key
                worker.send(job)
                if not self._await(worker, job):
                    worker.close()
                    worker, current = None, None
        finally:
            if worker:
                worker.close()

    def _await(self, worker, job):
        limit = CASE_LIMIT[self.tier]
        last = time.time()
        seed = None
        while True:
            try:
                ev = worker.q.get(timeout=1.0)
            except queue.Empty:
                if self.stop:
                    return False
                if time.time() - last > limit:
                    with self.lock:
                        self.violations.append({"job": job["id"], "seed": seed, "hang": True, "spec": job})
                        self.stop = True
                    return False
                continue
            if ev is None:
                with self.lock:
                    self.violations.append({"job": job["id"], "seed": seed, "died": True, "spec": job})
                    self.stop = True
                return False
            last = time.time()
            if ev["ev"] == "case":
                seed = ev["seed"]
            elif ev["ev"] == "violation":
                with self.lock:
                    self.violations.append({"job": job["id"], "seed": ev["seed"], "case": ev["case"],
                                            "res": ev["res"], "spec": job})
                    self.stop = True
            elif ev["ev"] == "error":
                with self.lock:
                    self.errors.append(ev["trace"])
                    self.stop = True
                return False
            elif ev["ev"] == "done":
                with self.lock:
                    self.results[job["id"]] = ev["stats"]
                    self.done += 1
                return True


# ----------------------------------------------------------------------------- replay


def run_replay_once(path, timeout):
    """Run a replay file in a fresh process. Returns dict(status=..., ...)."""
    with open(path) as f:
        rep = json.load(f)
    r, wfd = os.pipe()
    p = subprocess.Popen([PY, "-m", "simlib.engine_worker", "--replay", path, str(wfd)],
                         env=child_env(rep.get("env", {})), cwd=VERIF, pass_fds=(wfd,),
                         stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                         stderr=subprocess.DEVNULL if not os.environ.get("SIM_DEBUG") else None)
    os.close(wfd)
    try:
        p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        os.close(r)
        return {"status": "hang"}
    with os.fdopen(r) as f:
        lines = f.read().splitlines()
    if not lines:
        return {"status": "died", "code": p.returncode}
    return json.loads(lines[-1])


def replay_child():
    path, fd = sys.argv[2], int(sys.argv[3])
    out = os.fdopen(fd, "w", buffering=1)
    with open(path) as f:
        rep = json.load(f)
    _prepare_process()
    w = world(rep["property"])
    try:
        if rep["mode"] == "case":
            cases = [rep["case"]]
        else:
            cases = (w.gen(rep["cfg"], s) for s in rep["seeds"])
        res = {"status": "ok"}
        for c in cases:
            c.setdefault("env", rep.get("env", {}))
            st, r = run_case(w, c)
            res = {"status": st, "res": r if st != "ok" else None}
            if st == "violation":
                break
    except Exception:
        res = {"status": "error", "trace": traceback.format_exc()[-4000:]}
    out.write(json.dumps(res, default=str) + "\n")
    out.flush()
    os._exit(0)


def shrink_child():
    """Minimise a case in this process: argv = --shrink IN OUT seconds."""
    path, outp, budget = sys.argv[2], sys.argv[3], float(sys.argv[4])
    with open(path) as f:
        rep = json.load(f)
    _prepare_process()
    w = world(rep["property"])
    case = rep["case"]
    t_end = time.time() + budget
    st, res = run_case(w, case)
    if st != "violation":
        os._exit(0)
    kind = res["kind"]
    best, bres = case, res

    def fails(c):
        try:
            s, r = run_case(w, c)
        except Exception:
            return None
        if s == "violation" and r["kind"] == kind:
            return r
        return None

    def save():
        with open(outp + ".tmp", "w") as f:
            json.dump({"case": best, "res": bres}, f)
        os.replace(outp + ".tmp", outp)

    save()
    shrinker = getattr(w, "shrink", default_shrink)
    progress = True
    while progress and time.time() < t_end:
        progress = False
        for cand in shrinker(best):
            if time.time() > t_end:
                break
            cand["env"] = best.get("env", {})
            r = fails(cand)
            if r is not None:
                best, bres = cand, r
                save()
                progress = True
                break
    os._exit(0)


def default_shrink(case):
    """Remove chunks of `ops`, largest first, then drop optional faults."""
    ops = case.get("ops", [])
    n = len(ops)
    size = n // 2
    while size >= 1:
        for i in range(0, n - size + 1, size):
            c = dict(case)
            c["ops"] = ops[:i] + ops[i + size:]
            yield c
        size //= 2
    for i, op in enumerate(ops):
        if isinstance(op, dict) and op.get("mode") not in (None, "api"):
            c = dict(case)
            c["ops"] = ops[:i] + [dict(op, mode="api")] + ops[i + 1:]
            yield c


def report_violation(s: Search, v):
    """Minimise, verify and write the replay file. Returns (path, signature) or None."""
    pid = s.pid
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    base = os.path.join(rdir, f"{pid}-{s.tier}-{s.seed}-{v['job']}-{v['seed']}")
    path = base + ".json"
    env = v["spec"]["env"]
    head = {"property": pid, "seed": s.seed, "tier": s.tier, "env": env}
    case_limit = 150.0

    def write(obj):
        with open(path, "w") as f:
            json.dump(obj, f, indent=1, default=str)

    if v.get("hang") or v.get("died"):
        seeds = v["spec"]["seeds"]
        upto = seeds[: seeds.index(v["seed"]) + 1] if v["seed"] in seeds else seeds[:1]
        for use in ([upto[-1]], upto):
            write({**head, "mode": "job", "cfg": v["spec"]["cfg"], "seeds": use,
                   "violation": {"kind": "no-progress" if v.get("hang") else "process-died",
                                 "detail": "the run did not finish" if v.get("hang") else "the process died"}})
            r = run_replay_once(path, case_limit)
            if r["status"] in ("hang", "died", "violation"):
                kind = {"hang": "no-progress", "died": "process-died"}.get(r["status"]) or r["res"]["kind"]
                return path, {"kind": kind, "detail": json.dumps(r)[:500]}
        os.unlink(path)
        return None

    write({**head, "mode": "case", "case": v["case"], "violation": v["res"], "original_seed": v["seed"]})
    if run_replay_once(path, case_limit)["status"] == "violation":
        mini = base + ".min"
        budget = 40.0 if s.tier == "quick" else 240.0
        try:
            subprocess.run([PY, "-m", "simlib.engine_worker", "--shrink", path, mini, str(budget)],
                           env=child_env(env), cwd=VERIF, timeout=budget + 60,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            pass
        if os.path.exists(mini):
            with open(mini) as f:
                m = json.load(f)
            os.unlink(mini)
            full = {**head, "mode": "case", "case": v["case"], "violation": v["res"], "original_seed": v["seed"]}
            write({**head, "mode": "case", "case": m["case"], "violation": m["res"], "original_seed": v["seed"],
                   "original_ops": len(v["case"].get("ops", []))})
            r = run_replay_once(path, case_limit)
            if r["status"] == "violation" and r["res"] == m["res"]:
                return path, m["res"]
            write(full)
        return path, v["res"]
    # Depends on earlier runs in the same process: replay the job prefix.
    seeds = v["spec"]["seeds"]
    upto = seeds[: seeds.index(v["seed"]) + 1]
    write({**head, "mode": "job", "cfg": v["spec"]["cfg"], "seeds": upto, "violation": v["res"]})
    r = run_replay_once(path, case_limit * 2)
    if r["status"] == "violation":
        # Shortest suffix that still fails.
        k = len(upto)
        while k > 2:
            k = max(2, k // 2)
            write({**head, "mode": "job", "cfg": v["spec"]["cfg"], "seeds": upto[-k:], "violation": v["res"]})
            if run_replay_once(path, case_limit)["status"] != "violation":
                write({**head, "mode": "job", "cfg": v["spec"]["cfg"], "seeds": upto[-min(2 * k, len(upto)):],
                       "violation": v["res"]})
                break
        return path, r["res"]
    return None


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def main(pid, tier, seed, jobs_limit=None):
    w = world(pid)
    prep = getattr(w, "prepare", None)
    if prep:
        prep(tier)
    s = Search(pid, tier, seed, jobs_limit)
    s.search()
    wall = time.time() - s.t0
    out = None
    code = 0
    unrepro = 0
    if s.violations:
        for v in s.violations[:3]:
            r = report_violation(s, v)
            if r is None:
                unrepro += 1
                continue
            out = r
            break
        if out:
            code = 1
        elif unrepro:
            code = 3
    if s.errors and code == 0:
        code = 2
    cov = {
        "evaluations": s.total["runs"],
        "distinct_nontrivial": len(s.total["fps"]),
        "rule": "One evaluation is one simulated run, generated from one seed. Two runs are distinct when the states "
                "they reached, the operations or the faults differ; a run that reached no state is trivial. " + w.RULE,
        "distinct_states": len(s.total["states"]),
        "samples": [_short(x) for x in s.samples] or ["no run completed"],
        "runs_skipped": s.total["skips"],
        "skip_reasons": s.total["skip_reasons"],
        "simulated_steps": s.total["steps"],
        "operations": dict(sorted(s.total["ops"].items())),
        "faults_injected": dict(sorted(s.total["faults"].items())),
        "measures": dict(sorted(s.total["extra"].items())),
        "runs_per_hour": int(s.total["runs"] * 3600 / max(wall, 1e-3)),
        "seeds": "one fresh seed per run",
        "simulated_time": f"{s.total['steps']} logical steps (operations and scheduler decisions; the system has no clock)",
        "digest": "%016x" % h64(sorted(s.total["fps"]), s.total["runs"], s.total["steps"],
                                sorted(s.total["ops"].items()), sorted(s.total["faults"].items())),
        "jobs_planned": len(s.jobs),
        "jobs_finished": s.done,
        "environments": len(s._groups()),
        "components": w.COMPONENTS,
    }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": w.LEVEL, "coverage": cov,
        "assumptions": w.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": 1 if code == 1 else 0,
    }
    evdir = os.environ.get("SIM_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid} {tier} seed={seed}: {s.total['runs']} runs, {len(s.total['states'])} distinct states, "
          f"{s.total['steps']} steps, {s.done}/{len(s.jobs)} jobs, {wall:.1f}s")
    if s.total["faults"]:
        print("faults: " + ", ".join(f"{k}={v}" for k, v in sorted(s.total["faults"].items())))
    if code == 1:
        path, res = out
        for k in known_findings(pid):
            if k["kind"] == res["kind"] and k["match"] in res["detail"]:
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
                return 0
        print(f"{res['kind']}: {res['detail'][:1500]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if code == 2:
        print("ERROR in the check:\n" + s.errors[0])
        return 2
    if code == 3:
        print("ERROR: a run failed but did not fail again when replayed; nothing is claimed")
        for v in s.violations:
            print({k: v[k] for k in v if k not in ("case", "spec")})
        return 3
    if s.done < len(s.jobs):
        print(f"note: time limit reached, {len(s.jobs) - s.done} jobs not run")
    if s.total["runs"] == 0:
        print("ERROR: no run completed")
        return 2
    return 0


def _short(case):
    c = json.loads(json.dumps(case, default=str))
    ops = c.get("ops")
    if isinstance(ops, list) and len(ops) > 14:
        c["ops"] = ops[:14] + [f"... {len(ops) - 14} more"]
    return c


def replay_main(path):
    with open(path) as f:
        prep = getattr(world(json.load(f)["property"]), "prepare", None)
    if prep:
        prep("quick")
    r = run_replay_once(path, 600)
    print(json.dumps(r, indent=1, default=str))
    with open(path) as f:
        pid = json.load(f)["property"]
    if r["status"] in ("violation", "hang", "died"):
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0 if r["status"] in ("ok", "skip") else 2
