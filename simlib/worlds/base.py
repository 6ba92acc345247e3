"""What every world shares: running library calls in the different execution modes,
counting what happened, checkpoints, interrupted calls."""

from __future__ import annotations

import os
import pickle
import sys
from collections import Counter

import jax
import numpy as np

from ..util import Skip, Violation, h64

REPO = os.path.realpath(os.environ.get("SIM_REPO", "/repo"))
REPO_PKG = os.path.join(REPO, "xtructure") + os.sep

_JITS: dict = {}


def _in_repo(exc) -> bool:
    """Did the library raise this (rather than the simulator around it)?"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(REPO_PKG):
                return True
            tb = tb.tb_next
        exc = exc.__cause__ or exc.__context__
    return False


class Ctx:
    """One simulated run."""

    def __init__(self, case):
        self.case = case
        self.steps = 0
        self.ops = Counter()
        self.faults = Counter()
        self.extra = Counter()
        self.states = set()
        self._nstep = 0

    def result(self):
        return {"steps": self.steps, "ops": dict(self.ops), "faults": dict(self.faults),
                "extra": dict(self.extra), "states": list(self.states)}

    def state(self, *parts):
        self.states.add("%016x" % h64(*parts))

    # ------------------------------------------------------------------ library calls
    def lib(self, fid, fn, *args, mode="api", seed=0):
        """Run fn(*args) (pure, on pytrees) in one execution mode."""
        self.ops[(fid[0] if isinstance(fid, tuple) else fid) + ":" + mode] += 1
        self.steps += 1
        if mode == "dev":
            return self._device(fid, fn, args, seed)
        try:
            if mode == "jit":
                f = _JITS.get(fid)
                if f is None:
                    f = _JITS[fid] = jax.jit(fn)
                out = f(*args)
            else:
                out = fn(*args)
            return jax.block_until_ready(out)
        except (Violation, Skip):
            raise
        except Exception as e:
            if "Failed to materialize symbols" in str(e):
                raise Skip("XLA could not load a compiled program") from e  # out of memory mappings, not the library
            raise Violation("raised", f"{fid} ({mode}): {type(e).__name__}: {str(e)[:600]}") from e

    def _device(self, fid, fn, args, seed):
        from .. import device, kernels

        dev = device.shared()
        before = Counter(dev.stats)
        kernels.REPORT.reset()
        try:
            out = jax.block_until_ready(dev.call(fid, fn, args, seed))
        except (Violation, Skip):
            raise
        except kernels.Unsupported as e:
            raise Skip(f"unsupported kernel: {e}") from e
        except Exception as e:
            if _in_repo(e):
                raise Violation("raised", f"{fid} (dev): {type(e).__name__}: {str(e)[:600]}") from e
            raise Skip(f"simulator cannot run this program: {type(e).__name__}: {str(e)[:200]}") from e
        R = kernels.REPORT
        for k, v in (dev.stats - before).items():
            (self.extra if k == "kernel_launches" else self.faults)[k] += v
        if R.launches:
            self.extra["kernel_accesses"] += R.accesses
            self.extra["kernel_switches"] += R.switches
            self.extra["kernel_atomics"] += R.atomics
            self.faults["stale_loads"] += R.stale_loads
            self.faults["kernel_preemptions"] += R.switches
            self.steps += R.accesses
            for t in R.traces:
                self.state("kernel", t)
        if R.unsupported:
            raise Skip(f"unsupported kernel primitive: {R.unsupported[0]}")
        if R.oob:
            raise Violation("kernel-out-of-bounds", f"{fid}: {R.oob[0]}")
        if R.stuck:
            raise Violation("kernel-no-progress", f"{fid}: {R.stuck[0]}")
        return out

    # ------------------------------------------------------------------ faults
    def restart(self, obj):
        """Checkpoint to bytes and restore: only the bytes survive."""
        self.faults["checkpoint_restore"] += 1
        try:
            host = jax.tree_util.tree_map(np.asarray, obj)
            return pickle.loads(pickle.dumps(host if len(self.ops) % 2 else obj))
        except Exception as e:
            raise Violation("raised", f"checkpoint: {type(e).__name__}: {str(e)[:400]}") from e

    def interrupted(self, fid, fn, *args, at, exc=KeyboardInterrupt):
        """Run fn and raise `exc` at the at-th line executed inside the library.
        True if the call was really interrupted."""
        self.ops[(fid[0] if isinstance(fid, tuple) else fid) + ":interrupt"] += 1
        self.steps += 1
        left = [at]

        def local(frame, event, arg):
            if event == "line":
                left[0] -= 1
                if left[0] == 0:
                    sys.settrace(None)
                    raise exc("simulated interrupt")
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(REPO_PKG):
                return local
            return None

        old = sys.gettrace()
        hit = False
        try:
            sys.settrace(tracer)
            jax.block_until_ready(fn(*args))
        except Skip:
            raise
        except BaseException as e:
            if "simulated interrupt" in str(e):
                hit = True
            else:
                sys.settrace(old)
                if isinstance(e, Violation):
                    raise
                if isinstance(e, Exception) and left[0] > 0:
                    raise Violation("raised", f"{fid}: {type(e).__name__}: {str(e)[:400]}") from e
                hit = True
        finally:
            sys.settrace(old)
        if hit:
            self.faults["interrupted_call"] += 1
        return hit


def np_tree(obj):
    return [np.asarray(x) for x in jax.tree_util.tree_leaves(obj)]


def same_tree(a, b):
    la, lb = np_tree(a), np_tree(b)
    return len(la) == len(lb) and all(
        x.shape == y.shape and x.dtype == y.dtype and x.tobytes() == y.tobytes() for x, y in zip(la, lb))


def pick_mode(r, modes):
    return modes[r.randrange(len(modes))]


def make_jobs(variants, seeds_per_job, seed, pid):
    """One job per (env, cfg) variant, each with its own seeds."""
    out = []
    for i, (env, cfg) in enumerate(variants):
        n = max(1, int(seeds_per_job * cfg.get("runs", 1)))
        out.append({"env": env, "cfg": cfg, "seeds": [h64(pid, seed, i, k) % (1 << 48) for k in range(n)]})
    return out
