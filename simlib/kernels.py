"""Interpreter for Pallas kernels under a seeded scheduler.

A kernel launch runs every grid program as a coroutine that yields before each
memory access.  The scheduler picks which program takes its next access, so the
interleavings a GPU can produce (and no two programs of a block of warps are ordered
against each other) are reproduced from a seed.  Output buffers start as garbage, a
plain load may return a value that was overwritten moments ago (non-coherent cache),
and accesses outside a buffer are recorded.

Kernels use a small set of primitives.  One this interpreter does not know raises
Unsupported; the run is then skipped and counted, never reported as a violation.
"""

from __future__ import annotations

import os
import threading

import jax
import jax.numpy as jnp
import numpy as np
from jax._src import core as jcore


class Unsupported(Exception):
    pass


class Report:
    """What happened in kernels since the last reset (per process)."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.launches = 0
        self.programs = 0
        self.accesses = 0
        self.switches = 0
        self.stale_loads = 0
        self.atomics = 0
        self.oob = []
        self.unsupported = []
        self.stuck = []
        self.traces = set()


REPORT = Report()
_LOCK = threading.Lock()
STEP_LIMIT = 400_000


class _Ref:
    __slots__ = ("arr", "name", "hist", "written")

    def __init__(self, arr, name):
        self.arr = arr
        self.name = name
        self.hist = {}


def _np(x):
    return x


_CMP = {"eq": np.equal, "ne": np.not_equal, "lt": np.less, "le": np.less_equal,
        "gt": np.greater, "ge": np.greater_equal}
_BIN = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "and": np.bitwise_and,
        "or": np.bitwise_or, "xor": np.bitwise_xor, "max": np.maximum, "min": np.minimum,
        "add_any": np.add}


def _wrap(f):
    def g(p, *a):
        return f(*a)

    return g


def _trunc_div(a, b):
    a = np.asarray(a)
    b = np.asarray(b)
    if np.issubdtype(a.dtype, np.integer):
        if np.any(b == 0):
            return np.full(np.broadcast(a, b).shape, -1).astype(a.dtype)
        q = np.abs(a.astype(np.int64)) // np.abs(b.astype(np.int64))
        return (q * np.sign(a.astype(np.int64)) * np.sign(b.astype(np.int64))).astype(a.dtype)
    return np.divide(a, b)


def _rem(a, b):
    a = np.asarray(a)
    if np.issubdtype(a.dtype, np.integer):
        return (a.astype(np.int64) - _trunc_div(a, b).astype(np.int64) * np.asarray(b).astype(np.int64)).astype(a.dtype)
    return np.fmod(a, b)


def _shift(kind):
    def f(p, a, b):
        a = np.asarray(a)
        b = np.asarray(b).astype(np.int64)
        bits = a.dtype.itemsize * 8
        over = (b >= bits) | (b < 0)
        bs = np.where(over, 0, b)
        if kind == "l":
            r = (a.astype(np.uint64) << bs.astype(np.uint64)).astype(a.dtype) if a.dtype.kind == "u" else (
                a.astype(np.int64) << bs).astype(a.dtype)
            return np.where(over, 0, r).astype(a.dtype)
        if kind == "rl":
            u = a.astype(np.dtype(f"u{a.dtype.itemsize}")).astype(np.uint64)
            r = (u >> bs.astype(np.uint64)).astype(a.dtype)
            return np.where(over, 0, r).astype(a.dtype)
        r = (a.astype(np.int64) >> bs).astype(a.dtype)
        return np.where(over, np.where(a < 0, -1, 0), r).astype(a.dtype)

    return f


def _clz(p, a):
    a = np.asarray(a)
    bits = a.dtype.itemsize * 8
    u = a.astype(np.dtype(f"u{a.dtype.itemsize}"))
    f = np.vectorize(lambda v: bits - int(v).bit_length(), otypes=[np.int64])
    return f(u).astype(a.dtype)


def _popcnt(p, a):
    a = np.asarray(a)
    u = a.astype(np.dtype(f"u{a.dtype.itemsize}"))
    return np.vectorize(lambda v: bin(int(v)).count("1"), otypes=[np.int64])(u).astype(a.dtype)


def _select_n(p, which, *cases):
    w = np.asarray(which).astype(np.int64)
    out = np.broadcast_to(cases[0], np.broadcast(w, *cases).shape).copy()
    for i, c in enumerate(cases):
        out = np.where(w == i, c, out)
    return out.astype(np.asarray(cases[0]).dtype)


def _not(p, a):
    a = np.asarray(a)
    return np.logical_not(a) if a.dtype == np.bool_ else np.bitwise_not(a)


def _bcast(p, a, *dyn):
    shape, dims = p["shape"], p["broadcast_dimensions"]
    a = np.asarray(a)
    s = [1] * len(shape)
    for d, n in zip(dims, a.shape):
        s[d] = n
    return np.broadcast_to(a.reshape(s), shape)


def _integer_pow(p, a):
    a = np.asarray(a)
    return np.power(a, np.array(p["y"]).astype(a.dtype))


_PRIMS = {
    "not": _not, "neg": _wrap(np.negative), "abs": _wrap(np.abs), "sign": _wrap(np.sign),
    "clz": _clz, "population_count": _popcnt, "select_n": _select_n,
    "shift_left": _shift("l"), "shift_right_logical": _shift("rl"),
    "shift_right_arithmetic": _shift("ra"),
    "convert_element_type": lambda p, a, *_: np.asarray(a).astype(p["new_dtype"]),
    "broadcast_in_dim": _bcast,
    "reshape": lambda p, a, *_: np.asarray(a).reshape(p["new_sizes"]),
    "squeeze": lambda p, a: np.squeeze(a, axis=tuple(p["dimensions"])),
    "div": lambda p, a, b: _trunc_div(a, b), "rem": lambda p, a, b: _rem(a, b),
    "iota": lambda p, *_: np.broadcast_to(
        np.arange(p["shape"][p["dimension"]]).reshape(
            [-1 if i == p["dimension"] else 1 for i in range(len(p["shape"]))]), p["shape"]).astype(p["dtype"]),
    "multiple_of": lambda p, a, *_: a, "stop_gradient": lambda p, a: a, "copy": lambda p, a: a,
    "max_contiguous": lambda p, a, *_: a, "copy_p": lambda p, a: a,
    "is_finite": lambda p, a: np.isfinite(np.asarray(a).astype(np.float64)),
    "reduce_sum": lambda p, a: np.sum(a, axis=tuple(p["axes"])).astype(np.asarray(a).dtype),
    "reduce_max": lambda p, a: np.max(a, axis=tuple(p["axes"])),
    "reduce_min": lambda p, a: np.min(a, axis=tuple(p["axes"])),
    "reduce_or": lambda p, a: np.any(a, axis=tuple(p["axes"])),
    "reduce_and": lambda p, a: np.all(a, axis=tuple(p["axes"])),
    "square": lambda p, a: np.square(a), "integer_pow": _integer_pow,
    "clamp": lambda p, lo, x, hi: np.minimum(np.maximum(x, lo), hi),
    "concatenate": lambda p, *a: np.concatenate(a, axis=p["dimension"]),
    "slice": lambda p, a: np.asarray(a)[tuple(
        slice(s, e, (st if p["strides"] is not None else 1)) for s, e, st in zip(
            p["start_indices"], p["limit_indices"], p["strides"] or [1] * np.ndim(a)))],
}
for _n, _f in {**_CMP, **_BIN}.items():
    _PRIMS[_n] = _wrap(_f)


class _Prog:
    """One grid program."""

    def __init__(self, launch, pid):
        self.launch = launch
        self.pid = pid

    # -- memory ---------------------------------------------------------------
    def _index(self, ref, indexers):
        if not indexers:
            return (Ellipsis,), True
        if len(indexers) != 1:
            raise Unsupported("nested indexers")
        nd = indexers[0]
        idx = []
        ok = True
        slices = []
        for dim, i in zip(ref.arr.shape, nd.indices):
            if hasattr(i, "start") and hasattr(i, "size"):
                s, n = int(np.asarray(i.start)), int(i.size)
                st = int(getattr(i, "stride", 1) or 1)
                if n and (s < 0 or s + (n - 1) * st >= dim):
                    ok = False
                slices.append((s, n, st, dim))
                idx.append(("s", s, n, st, dim))
            else:
                a = np.asarray(i)
                if a.ndim == 0:
                    v = int(a)
                    if v < 0 or v >= dim:
                        ok = False
                    idx.append(("i", v, dim))
                else:
                    raise Unsupported("array indexer")
        out = []
        for it in idx:
            if it[0] == "i":
                _, v, dim = it
                out.append(min(max(v, 0), dim - 1) if dim else None)
            else:
                _, s, n, st, dim = it
                pos = np.clip(s + np.arange(n) * st, 0, max(dim - 1, 0))
                out.append(pos)
        if any(isinstance(o, np.ndarray) for o in out):
            arrs = [o for o in out if isinstance(o, np.ndarray)]
            mesh = np.ix_(*arrs)
            k = 0
            full = []
            for o in out:
                if isinstance(o, np.ndarray):
                    full.append(mesh[k])
                    k += 1
                else:
                    full.append(o)
            out = full
        return tuple(out), ok

    def _load(self, ref, ix, ok, dtype, shape):
        L = self.launch
        L.accesses += 1
        if not ok:
            L.note_oob("load", ref, self.pid)
            if ref.arr.size == 0:
                return L.garbage(shape, dtype)
        if 0 in ref.arr.shape:
            return np.zeros(shape, dtype)
        v = np.array(ref.arr[ix], copy=True)
        if not ok:
            return L.garbage(v.shape, v.dtype)
        if L.stale and ref.hist:
            h = ref.hist.get(str(ix))
            if h and L.rng.randint(4) == 0:
                L.stale_loads += 1
                v = np.array(h[L.rng.randint(len(h))], copy=True)
        return v

    def _store(self, ref, ix, ok, val, mask=None):
        L = self.launch
        L.accesses += 1
        if mask is not None and not np.all(mask):
            if not np.any(mask):
                return
            raise Unsupported("partial mask")
        if not ok:
            L.note_oob("store", ref, self.pid)
            return
        if 0 in ref.arr.shape:
            return
        if L.stale:
            ref.hist.setdefault(str(ix), []).append(np.array(ref.arr[ix], copy=True))
        ref.arr[ix] = val

    # -- evaluation ---------------------------------------------------------------
    def run(self, jaxpr, consts, args):
        env = {}

        def read(v):
            return np.asarray(v.val) if isinstance(v, jcore.Literal) else env[v]

        for v, c in zip(jaxpr.constvars, consts):
            env[v] = c
        for v, a in zip(jaxpr.invars, args):
            env[v] = a
        for eqn in jaxpr.eqns:
            n = eqn.primitive.name
            p = eqn.params
            iv = [read(v) for v in eqn.invars]
            if n == "program_id":
                out = [np.int32(self.pid[p["axis"]])]
            elif n == "num_programs":
                out = [np.int32(self.launch.grid[p["axis"]])]
            elif n in ("get", "swap", "masked_load", "load", "masked_swap", "atomic_rmw", "addupdate"):
                yield
                out = self._mem(n, p, iv, eqn)
            elif n == "while":
                cn, bn = p["cond_nconsts"], p["body_nconsts"]
                cc, bc, st = iv[:cn], iv[cn:cn + bn], iv[cn + bn:]
                while True:
                    (c,) = yield from self.run(p["cond_jaxpr"].jaxpr, p["cond_jaxpr"].consts, [*cc, *st])
                    if not np.all(c):
                        break
                    self.launch.step()
                    st = yield from self.run(p["body_jaxpr"].jaxpr, p["body_jaxpr"].consts, [*bc, *st])
                out = st
            elif n == "cond":
                br = p["branches"]
                i = min(max(int(np.asarray(iv[0])), 0), len(br) - 1)
                out = yield from self.run(br[i].jaxpr, br[i].consts, iv[1:])
            elif n == "scan":
                nc, ncar = p["num_consts"], p["num_carry"]
                cs, car, xs = iv[:nc], iv[nc:nc + ncar], iv[nc + ncar:]
                order = range(p["length"])
                if p["reverse"]:
                    order = reversed(order)
                ys = {}
                for k in order:
                    self.launch.step()
                    o = yield from self.run(p["jaxpr"].jaxpr, p["jaxpr"].consts, [*cs, *car, *[x[k] for x in xs]])
                    car, ys[k] = o[:ncar], o[ncar:]
                stacked = [np.stack([ys[k][i] for k in range(p["length"])]) for i in range(
                    len(p["jaxpr"].jaxpr.outvars) - ncar)]
                out = [*car, *stacked]
            elif n in ("jit", "pjit", "closed_call", "custom_jvp_call", "custom_vjp_call", "core_call", "remat"):
                j = p.get("jaxpr") or p.get("call_jaxpr")
                if j is None:
                    raise Unsupported(n)
                if isinstance(j, jcore.ClosedJaxpr):
                    out = yield from self.run(j.jaxpr, j.consts, iv)
                else:
                    out = yield from self.run(j, (), iv)
            elif n in _PRIMS:
                with np.errstate(all="ignore"):
                    out = [_PRIMS[n](p, *iv)]
                self.launch.step()
            else:
                raise Unsupported(n)
            for v, o in zip(eqn.outvars, out):
                env[v] = o
        return [read(v) for v in jaxpr.outvars]

    def _mem(self, n, p, iv, eqn):
        L = self.launch
        if n == "get":
            ref, *leaves = iv
            ix, ok = self._index(ref, jax.tree_util.tree_unflatten(p["tree"], leaves))
            av = eqn.outvars[0].aval
            return [self._load(ref, ix, ok, av.dtype, av.shape)]
        if n == "swap":
            ref, val, *leaves = iv
            ix, ok = self._index(ref, jax.tree_util.tree_unflatten(p["tree"], leaves))
            av = eqn.outvars[0].aval
            drop = type(eqn.outvars[0]).__name__ == "DropVar"
            old = np.zeros(av.shape, av.dtype) if drop else self._load(ref, ix, ok, av.dtype, av.shape)
            self._store(ref, ix, ok, np.asarray(val))
            return [old]
        if n == "addupdate":
            ref, val, *leaves = iv
            ix, ok = self._index(ref, jax.tree_util.tree_unflatten(p["tree"], leaves))
            av = val
            old = self._load(ref, ix, ok, np.asarray(av).dtype, np.shape(av))
            self._store(ref, ix, ok, old + np.asarray(val))
            return []
        if n in ("masked_load", "load"):
            ref, idx, mask, other = jax.tree_util.tree_unflatten(p["args_tree"], iv)
            ix, ok = self._index(ref, idx)
            av = eqn.outvars[0].aval
            if mask is not None and not np.any(mask):
                return [np.broadcast_to(np.asarray(0 if other is None else other, av.dtype), av.shape)]
            if mask is not None and not np.all(mask):
                raise Unsupported("partial mask")
            return [self._load(ref, ix, ok, av.dtype, av.shape)]
        if n == "masked_swap":
            ref, idx, val, mask = jax.tree_util.tree_unflatten(p["args_tree"], iv)
            ix, ok = self._index(ref, idx)
            av = eqn.outvars[0].aval
            if mask is not None and not np.any(mask):
                return [np.zeros(av.shape, av.dtype)]
            old = np.zeros(av.shape, av.dtype)
            self._store(ref, ix, ok, np.asarray(val), mask)
            return [old]
        if n == "atomic_rmw":
            ref, idx, val, mask = jax.tree_util.tree_unflatten(p["args_tree"], iv)
            ix, ok = self._index(ref, idx)
            av = eqn.outvars[0].aval
            L.atomics += 1
            if mask is not None and not np.all(mask):
                if np.any(mask):
                    raise Unsupported("partial mask")
                return [np.zeros(av.shape, av.dtype)]
            L.accesses += 1
            if not ok or ref.arr.size == 0:
                L.note_oob("atomic", ref, self.pid)
                return [np.zeros(av.shape, av.dtype)]
            old = np.array(ref.arr[ix], copy=True)
            kind = str(p["atomic_type"]).lower()
            val = np.asarray(val)
            for name, f in (("xchg", lambda a, b: b), ("add", np.add), ("max", np.maximum),
                            ("min", np.minimum), ("xor", np.bitwise_xor),
                            ("or", np.bitwise_or), ("and", np.bitwise_and)):
                if kind.endswith(name) or kind.split(".")[-1].startswith(name):
                    new = f(old, val)
                    break
            else:
                raise Unsupported(kind)
            if L.stale:
                ref.hist.setdefault(str(ix), []).append(old)
            ref.arr[ix] = new
            return [old]
        raise Unsupported(n)


class _Launch:
    def __init__(self, grid, seed, parallel):
        self.grid = grid
        self.rng = np.random.RandomState(seed & 0xFFFFFFFF)
        self.parallel = parallel
        self.stale = parallel and bool(self.rng.randint(2))
        self.accesses = 0
        self.stale_loads = 0
        self.atomics = 0
        self.oob = []
        self.steps = 0

    def step(self):
        self.steps += 1
        if self.steps > STEP_LIMIT:
            raise TimeoutError("kernel made no progress")

    def note_oob(self, kind, ref, pid):
        self.oob.append(f"{kind} outside buffer {ref.name}{ref.arr.shape} by program {pid}")

    def garbage(self, shape, dtype):
        dtype = np.dtype(dtype)
        if dtype == np.bool_:
            return self.rng.randint(0, 2, size=shape).astype(bool)
        n = int(np.prod(shape)) if shape else 1
        raw = self.rng.randint(0, 256, size=n * dtype.itemsize).astype(np.uint8)
        return raw.view(dtype).reshape(shape).copy()


def _launch(jaxpr, grid, n_in, n_out, aliases, out_info, parallel, seed, *inputs):
    seed = int(np.asarray(seed))
    inputs = [np.array(x) for x in inputs]
    L = _Launch(grid, seed, parallel)
    outs = []
    for k, (shape, dtype) in enumerate(out_info):
        src = [i for i, o in aliases if o == k]
        outs.append(np.array(inputs[src[0]], copy=True) if src else L.garbage(shape, dtype))
    refs = [_Ref(a, f"in{i}") for i, a in enumerate(inputs)]
    orefs = [_Ref(a, f"out{i}") for i, a in enumerate(outs)]
    # An aliased input is the same memory as its output.
    for i, o in aliases:
        refs[i].arr = orefs[o].arr
        refs[i].hist = orefs[o].hist
    try:
        pids = list(np.ndindex(*grid)) if grid else [()]
        gens = {pid: _Prog(L, pid).run(jaxpr, (), [*refs, *orefs]) for pid in pids}
        switches = 0
        trace = 1469598103934665603
        if not parallel:
            for pid in pids:
                for _ in gens[pid]:
                    pass
        else:
            live = list(pids)
            # Scheduling styles: free interleaving, few long bursts, lock step.
            style = int(L.rng.randint(3))
            last = None
            while live:
                if style == 2:
                    order = list(live)
                    L.rng.shuffle(order)
                    pick = order
                else:
                    pick = [live[int(L.rng.randint(len(live)))]]
                for pid in pick:
                    burst = 1 if style != 1 else int(1 + L.rng.randint(12))
                    if pid != last:
                        switches += 1
                        last = pid
                    for _ in range(burst):
                        L.step()
                        try:
                            next(gens[pid])
                        except StopIteration:
                            live.remove(pid)
                            break
                    trace = ((trace ^ hash(pid)) * 1099511628211) & ((1 << 64) - 1)
        err = None
    except Unsupported as e:
        err = ("unsupported", str(e))
        switches = trace = 0
    except TimeoutError as e:
        err = ("stuck", str(e))
        switches = trace = 0
    with _LOCK:
        R = REPORT
        R.launches += 1
        R.programs += len(pids)
        R.accesses += L.accesses
        R.switches += switches
        R.stale_loads += L.stale_loads
        R.atomics += L.atomics
        R.oob.extend(L.oob[:4])
        if trace and len(R.traces) < 200000:
            R.traces.add(trace)
        if err is not None:
            (R.unsupported if err[0] == "unsupported" else R.stuck).append(err[1])
    return tuple(o.orefs if False else o.arr for o in orefs)


def eval_pallas_call(eqn, invals, st):
    p = eqn.params
    gm = p["grid_mapping"]
    jaxpr = p["jaxpr"]
    if isinstance(jaxpr, jcore.ClosedJaxpr):
        jaxpr = jaxpr.jaxpr
    grid = tuple(int(g) for g in gm.grid)
    n_in, n_out = gm.num_inputs, gm.num_outputs
    if gm.num_index_operands or getattr(gm, "num_scratch_operands", 0):
        raise Unsupported("index/scratch operands")
    for bm in gm.block_mappings:
        shape = tuple(int(getattr(b, "block_size", b)) for b in bm.block_shape)
        if shape != tuple(bm.array_aval.shape):
            raise Unsupported("blocked operands")
    aliases = tuple(p.get("input_output_aliases") or ())
    out_info = [(tuple(a.shape), a.dtype) for a in p["out_avals"]]
    backend = str(p.get("backend") or "triton")
    parallel = "tpu" not in backend or os.environ.get("SIM_GRID") == "parallel"
    seed = st.bits(())
    shapes = tuple(jax.ShapeDtypeStruct(s, d) for s, d in out_info)
    fn = lambda seed, *xs: _launch(jaxpr, grid, n_in, n_out, aliases, out_info, parallel, seed, *xs)  # noqa: E731
    return list(jax.pure_callback(fn, shapes, seed, *[jnp.asarray(x) for x in invals]))
