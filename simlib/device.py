"""Device simulator.

`SimDevice.call(fn, args)` traces `fn` to a jaxpr (the program JAX hands to the
device), and executes that program under an adversarial but legal device: every
freedom the XLA / Pallas contracts leave open is decided by a seeded scheduler.

 * scatter with repeated indices : updates are applied in a random order, and rows
   may be torn (each element of a row is decided by its own order)
 * sort, is_stable=False         : rows with equal keys come out in a random order
 * scatter/gather promises       : `unique_indices`, `indices_are_sorted` and
   PROMISE_IN_BOUNDS are undefined behaviour when broken, so a broken promise
   yields garbage and is counted
 * pallas_call                   : executed by simlib.kernels, which interleaves the
   grid programs one memory access at a time

One seed is one exactly repeatable execution.  Statistics are threaded through the
program as data, so they count what really happened at run time.
"""

from __future__ import annotations

import functools
from collections import Counter

import jax
import jax.numpy as jnp
import numpy as np
from jax import lax
from jax._src import core as jcore

STAT_NAMES = (
    "scatter_dup_reordered",
    "unstable_sort_ties",
    "broken_unique_promise",
    "broken_sorted_promise",
    "broken_inbounds_promise",
    "kernel_launches",
)
NSTAT = len(STAT_NAMES)

_SCATTER_SET = {"scatter"}
_SCATTER_ANY = {"scatter", "scatter-add", "scatter-mul", "scatter-min", "scatter-max",
                "scatter_add", "scatter_mul", "scatter_min", "scatter_max", "scatter_sub"}
_INLINE = {"jit", "pjit", "closed_call", "core_call", "xla_call", "custom_jvp_call",
           "custom_vjp_call", "remat", "checkpoint", "custom_vjp_call_jaxpr"}


def _sub_jaxprs(eqn):
    for v in eqn.params.values():
        yield from _jaxprs_in(v)


def _jaxprs_in(v):
    if isinstance(v, jcore.ClosedJaxpr):
        yield v.jaxpr
    elif isinstance(v, jcore.Jaxpr):
        yield v
    elif isinstance(v, (tuple, list)):
        for x in v:
            yield from _jaxprs_in(x)


def _interesting_eqn(eqn) -> bool:
    n = eqn.primitive.name
    if n == "pallas_call":
        return True
    if n == "sort":
        return not eqn.params.get("is_stable", True)
    if n in _SCATTER_ANY:
        return True
    if n == "gather":
        p = eqn.params
        return bool(p.get("indices_are_sorted") or p.get("unique_indices")) or (
            "PROMISE" in str(p.get("mode"))
        )
    return False


_interesting_cache: dict[int, bool] = {}
_keep = []


def _interesting(jaxpr) -> bool:
    r = _interesting_cache.get(id(jaxpr))
    if r is None:
        r = any(
            _interesting_eqn(e)
            or (e.primitive.name != "pallas_call" and any(_interesting(j) for j in _sub_jaxprs(e)))
            for e in jaxpr.eqns
        )
        _interesting_cache[id(jaxpr)] = r
        _keep.append(jaxpr)
    return r


def _mix(x):
    x = x.astype(jnp.uint32)
    x = (x ^ (x >> 16)) * jnp.uint32(0x7FEB352D)
    x = (x ^ (x >> 15)) * jnp.uint32(0x846CA68B)
    return x ^ (x >> 16)


class _State:
    """Traced simulator state: (seed, draw counter, statistics)."""

    __slots__ = ("seed", "ctr", "stats")

    def __init__(self, seed, ctr, stats):
        self.seed, self.ctr, self.stats = seed, ctr, stats

    def tup(self):
        return (self.seed, self.ctr, self.stats)

    def bits(self, shape):
        n = int(np.prod(shape)) if shape else 1
        base = _mix(self.seed ^ _mix(self.ctr + jnp.uint32(0x9E3779B9)))
        self.ctr = self.ctr + jnp.uint32(1)
        out = _mix(jnp.arange(n, dtype=jnp.uint32) * jnp.uint32(0x85EBCA6B) + base)
        return out.reshape(shape)

    def perm(self, n):
        return jnp.argsort(self.bits((n,)), stable=True).astype(jnp.int32)

    def add(self, name, amount):
        i = STAT_NAMES.index(name)
        self.stats = self.stats.at[i].add(jnp.asarray(amount).astype(jnp.uint32))


def _garbage(st: _State, x):
    b = st.bits(x.shape)
    if x.dtype == jnp.bool_:
        return (b & 1).astype(jnp.bool_)
    if jnp.issubdtype(x.dtype, jnp.integer):
        return x ^ b.astype(x.dtype) ^ jnp.array(1, x.dtype)
    return jnp.where((b & 1) == 0, jnp.array(jnp.nan, x.dtype), b.astype(x.dtype) * -3)


def _scatter_positions(dn, updates):
    return tuple(d for d in range(updates.ndim) if d not in dn.update_window_dims)


def _eval_scatter(eqn, invals, st: _State):
    operand, indices, updates = invals
    p = dict(eqn.params)
    dn = p["dimension_numbers"]
    name = eqn.primitive.name

    def bind(op, idx, upd):
        (out,) = _as_tuple(eqn.primitive.bind(op, idx, upd, **p))
        return out

    if updates.size == 0 or operand.size == 0:
        return [bind(operand, indices, updates)]
    scatter_dims = _scatter_positions(dn, updates)
    batching = set(getattr(dn, "scatter_indices_batching_dims", ()) or ())

    # How many updates land on each element of the operand (dropped ones do not).
    ones = jnp.ones(updates.shape, jnp.int32)
    count = lax.scatter_add(
        jnp.zeros(operand.shape, jnp.int32), indices, ones, dn,
        indices_are_sorted=False, unique_indices=False, mode=p["mode"],
    )
    dup = count > 1
    any_dup = jnp.any(dup)

    # Never hand the broken promise to the real backend: we model it ourselves.
    promised_unique = bool(p.get("unique_indices"))
    promised_sorted = bool(p.get("indices_are_sorted"))
    p["unique_indices"] = False
    p["indices_are_sorted"] = False

    if name in _SCATTER_SET:
        def permuted(st):
            idx, upd = indices, updates
            for axis, d in enumerate(scatter_dims):
                if axis in batching or updates.shape[d] <= 1:
                    continue
                pm = st.perm(updates.shape[d])
                idx = jnp.take(idx, pm, axis=axis)
                upd = jnp.take(upd, pm, axis=d)
            return bind(operand, idx, upd)

        a = permuted(st)
        b = permuted(st)
        tear = (st.bits(operand.shape) & 1) == 0
        whole = (st.bits(()) & 1) == 0
        out = jnp.where(jnp.logical_or(whole, tear), a, b)
        st.add("scatter_dup_reordered", any_dup)
    else:
        out = bind(operand, indices, updates)

    if promised_unique:
        out = jnp.where(dup, _garbage(st, out), out)
        st.add("broken_unique_promise", any_dup)
    if promised_sorted and len(scatter_dims) >= 1 and indices.ndim == 2 and indices.shape[-1] == 1:
        flat = indices[:, 0]
        bad = jnp.any(flat[1:] < flat[:-1])
        out = jnp.where(jnp.logical_and(bad, count > 0), _garbage(st, out), out)
        st.add("broken_sorted_promise", bad)
    return [out]


def _eval_sort(eqn, invals, st: _State):
    p = eqn.params
    dim, num_keys = p["dimension"], p["num_keys"]
    x = invals[0]
    n = x.shape[dim] if x.ndim else 1
    if n <= 1:
        return list(_as_tuple(eqn.primitive.bind(*invals, **p)))
    # A random pre-permutation followed by a stable sort is a legal unstable sort.
    pm = st.perm(n)
    pre = [jnp.take(v, pm, axis=dim) for v in invals]
    p2 = dict(p)
    p2["is_stable"] = True
    out = list(_as_tuple(eqn.primitive.bind(*pre, **p2)))
    eq = None
    for k in out[:num_keys]:
        a = lax.slice_in_dim(k, 0, n - 1, axis=dim)
        b = lax.slice_in_dim(k, 1, n, axis=dim)
        e = a == b
        eq = e if eq is None else jnp.logical_and(eq, e)
    if len(invals) > num_keys:
        st.add("unstable_sort_ties", jnp.any(eq))
    return out


def _eval_gather(eqn, invals, st: _State):
    operand, indices = invals
    p = dict(eqn.params)
    dn = p["dimension_numbers"]
    out = None
    if "PROMISE" in str(p.get("mode")) and operand.size and indices.size:
        limit = []
        for d in dn.start_index_map:
            limit.append(operand.shape[d] - p["slice_sizes"][d])
        lim = jnp.array(limit, dtype=jnp.int32)
        idx = indices
        if jnp.issubdtype(idx.dtype, jnp.unsignedinteger):
            bad = jnp.any(idx > lim.astype(idx.dtype), axis=-1)
        else:
            bad = jnp.any(jnp.logical_or(idx < 0, idx > lim.astype(idx.dtype)), axis=-1)
        p["mode"] = lax.GatherScatterMode.CLIP
        p["indices_are_sorted"] = False
        p["unique_indices"] = False
        (out,) = _as_tuple(eqn.primitive.bind(operand, indices, **p))
        # `bad` has the batch dims of the output (those not in offset_dims).
        shape = [1] * out.ndim
        bdims = [d for d in range(out.ndim) if d not in dn.offset_dims]
        for d, s in zip(bdims, bad.shape):
            shape[d] = s
        out = jnp.where(bad.reshape(shape), _garbage(st, out), out)
        st.add("broken_inbounds_promise", jnp.any(bad))
        return [out]
    p["indices_are_sorted"] = False
    p["unique_indices"] = False
    return list(_as_tuple(eqn.primitive.bind(operand, indices, **p)))


def _as_tuple(x):
    return tuple(x) if isinstance(x, (tuple, list)) else (x,)


def _eval(jaxpr, consts, args, st: _State):
    env = {}

    def read(v):
        return v.val if isinstance(v, jcore.Literal) else env[v]

    for v, c in zip(jaxpr.constvars, consts):
        env[v] = c
    for v, a in zip(jaxpr.invars, args):
        env[v] = a
    for eqn in jaxpr.eqns:
        invals = [read(v) for v in eqn.invars]
        outs = _eval_eqn(eqn, invals, st)
        for v, o in zip(eqn.outvars, outs):
            env[v] = o
    return [read(v) for v in jaxpr.outvars]


def _plain(eqn, invals):
    subfuns, bind_params = eqn.primitive.get_bind_params(eqn.params)
    return list(_as_tuple(eqn.primitive.bind(*subfuns, *invals, **bind_params)))


def _eval_eqn(eqn, invals, st: _State):
    name = eqn.primitive.name
    if name == "pallas_call":
        from . import kernels

        st.add("kernel_launches", 1)
        return kernels.eval_pallas_call(eqn, invals, st)
    if _interesting_eqn(eqn):
        invals = [jnp.asarray(v) for v in invals]
        if name == "sort":
            return _eval_sort(eqn, invals, st)
        if name == "gather":
            return _eval_gather(eqn, invals, st)
        return _eval_scatter(eqn, invals, st)
    if not any(_interesting(j) for j in _sub_jaxprs(eqn)):
        return _plain(eqn, invals)

    p = eqn.params
    if name == "while":
        cj, bj = p["cond_jaxpr"], p["body_jaxpr"]
        cn, bn = p["cond_nconsts"], p["body_nconsts"]
        cc, bc, init = invals[:cn], invals[cn:cn + bn], invals[cn + bn:]

        def cond(c):
            s = _State(*c[0])
            (r,) = _eval(cj.jaxpr, cj.consts, [*cc, *c[1]], s)
            return r

        def body(c):
            s = _State(*c[0])
            out = _eval(bj.jaxpr, bj.consts, [*bc, *c[1]], s)
            return s.tup(), [jnp.asarray(o) for o in out]

        (t, out) = lax.while_loop(
            cond, body, (st.tup(), [_strong(x, v) for x, v in zip(init, bj.jaxpr.outvars)])
        )
        st.seed, st.ctr, st.stats = t
        return out
    if name == "cond":
        branches = p["branches"]
        idx, *ops = invals

        def mk(b):
            def f(t, *ops):
                s = _State(*t)
                out = _eval(b.jaxpr, b.consts, ops, s)
                return s.tup(), [_strong(o, v) for o, v in zip(out, b.jaxpr.outvars)]

            return f

        t, out = lax.switch(jnp.asarray(idx).astype(jnp.int32), [mk(b) for b in branches], st.tup(), *ops)
        st.seed, st.ctr, st.stats = t
        return out
    if name == "scan":
        nc, ncar = p["num_consts"], p["num_carry"]
        j = p["jaxpr"]
        consts, carry, xs = invals[:nc], invals[nc:nc + ncar], invals[nc + ncar:]

        def f(c, x):
            s = _State(*c[0])
            out = _eval(j.jaxpr, j.consts, [*consts, *c[1], *x], s)
            out = [_strong(o, v) for o, v in zip(out, j.jaxpr.outvars)]
            return (s.tup(), out[:ncar]), out[ncar:]

        (t, cout), ys = lax.scan(
            f, (st.tup(), [_strong(x, v) for x, v in zip(carry, j.jaxpr.outvars)]), list(xs),
            length=p["length"], reverse=p["reverse"],
        )
        st.seed, st.ctr, st.stats = t
        return [*cout, *ys]
    if name in _INLINE:
        for k in ("jaxpr", "call_jaxpr", "fun_jaxpr"):
            j = p.get(k)
            if isinstance(j, jcore.ClosedJaxpr):
                return _eval(j.jaxpr, j.consts, invals, st)
            if isinstance(j, jcore.Jaxpr):
                return _eval(j, (), invals, st)
    # Unknown higher-order primitive: run it as the real device would.
    return _plain(eqn, invals)


def _strong(x, var):
    return jnp.asarray(x, dtype=var.aval.dtype)


class SimDevice:
    """Runs functions on the simulated device; accumulates statistics."""

    def __init__(self):
        self._cache = {}
        self.stats = Counter()

    def call(self, fn_id, fn, args, seed: int):
        """Run fn(*args); fn_id identifies the function up to argument shapes."""
        leaves, tree = jax.tree_util.tree_flatten(args)
        leaves = [jnp.asarray(x) for x in leaves]
        sig = (fn_id, tree, tuple((x.shape, str(x.dtype), x.weak_type if hasattr(x, "weak_type") else False) for x in leaves))
        ent = self._cache.get(sig)
        if ent is None:
            def flat(*ls):
                return fn(*jax.tree_util.tree_unflatten(tree, ls))

            closed, shape = jax.make_jaxpr(flat, return_shape=True)(*leaves)
            out_tree = jax.tree_util.tree_structure(shape)

            @jax.jit
            def run(seed, *ls):
                st = _State(seed, jnp.uint32(0), jnp.zeros((NSTAT,), jnp.uint32))
                out = _eval(closed.jaxpr, closed.consts, list(ls), st)
                return out, st.stats

            ent = self._cache[sig] = (run, out_tree)
        run, out_tree = ent
        out, stats = run(jnp.uint32(seed & 0xFFFFFFFF), *leaves)
        for n, v in zip(STAT_NAMES, np.asarray(stats)):
            if v:
                self.stats[n] += int(v)
        return jax.tree_util.tree_unflatten(out_tree, out)


@functools.lru_cache(maxsize=1)
def shared() -> SimDevice:
    return SimDevice()
