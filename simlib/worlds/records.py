"""P24: array operations on a batch of records move whole records.

A run keeps a few live batches.  The model of a batch is an integer array holding, for
every batch position, the id of the record stored there (-2: the class's default record);
every operation is applied to the batch by the library and to the id array by numpy.  The
batch must hold, in every field, exactly the records the id array names.  Modes: api, jit,
vmap (two batches in lock step), dev (simulated device); faults: restarts (including
instances that live in host memory afterwards), interrupted calls.
"""

from __future__ import annotations

import jax
import jax.numpy as jnp
import numpy as np

from ..util import Violation, h64, rng
from .base import Ctx, make_jobs, np_tree
from .containers import COMPONENTS, DEV_ASSUME
from .hist import wild_pool

MAXN = 40
DEF = -2
SCALAR = ("U32", "Pair32", "I8Pair")


def fail(kind, *msg):
    raise Violation(kind, " ".join(str(m) for m in msg))


def factor(r, n, rank):
    dims = []
    for _ in range(rank - 1):
        ds = [d for d in range(1, n + 1) if n % d == 0]
        d = r.choice(ds)
        dims.append(d)
        n //= d
    dims.append(n)
    r.shuffle(dims)
    return dims


def plan(name, r, ids, other, scalar):
    """Concrete arguments of an operation for a batch of this shape, or None."""
    s, k = ids.shape, ids.ndim
    n = ids.size
    ax = r.randrange(k) if k else 0
    if name == "reshape":
        if not k or not n:
            return None
        d = factor(r, n, r.randint(1, 3))
        if r.random() < .3:
            d[r.randrange(len(d))] = -1
        return d
    if name == "iter":
        return [] if k and s[0] <= 12 else None
    if name == "flatten":
        return [] if k else None
    if name == "transpose":
        if not k:
            return None
        return None if r.random() < 0 else (r.sample(range(k), k) if r.random() < .7 else "none")
    if name in ("swapaxes",):
        return [r.randrange(-k, k), r.randrange(-k, k)] if k >= 2 else None
    if name == "moveaxis":
        if k >= 2 and r.random() < .4:
            return [r.sample(range(k), 2), r.sample(range(k), 2)]
        return [r.randrange(k), r.randrange(k)] if k >= 2 else None
    if name == "expand_dims":
        if k < 2 and r.random() < .3:
            return [[0, 1]]
        return [r.randrange(k + 1)] if k < 3 else None
    if name == "squeeze":
        one = [i for i, d in enumerate(s) if d == 1]
        if len(one) > 1 and r.random() < .5:
            return [one]
        return [r.choice(one)] if one else None
    if name == "roll":
        if k >= 2 and r.random() < .4:
            return [[r.randint(-4, 7), r.randint(-4, 7)], r.sample(range(k), 2)]
        return [r.randint(-4, 7), ax] if k else None
    if name == "flip":
        if k >= 2 and r.random() < .4:
            return [r.sample(range(k), 2)]
        return [ax] if k else None
    if name == "rot90":
        return [r.randrange(-1, 4), r.sample(range(k), 2)] if k >= 2 else None
    if name == "repeat":
        if k and n and r.random() < .4:
            reps = [r.choice([0, 1, 1, 2, 3]) for _ in range(s[ax])]
            return [reps, ax] if sum(reps) * n // s[ax] <= MAXN else None
        return [r.choice([1, 2]), ax] if k and 2 * n <= MAXN else None
    if name == "take":
        if not k or not s[ax]:
            return None
        if r.random() < .3:
            return [r.randrange(-s[ax], s[ax]), ax]
        if r.random() < .3:
            return [[[r.randrange(s[ax]) for _ in range(2)] for _ in range(2)], ax] if k < 3 and n // s[ax] * 4 <= MAXN else None
        m = r.choice([1, 3, 4])
        return [[r.randrange(s[ax]) for _ in range(m)], ax] if n // s[ax] * m <= MAXN else None
    if name == "take_along_axis":
        if not k or not n:
            return None
        m = r.choice([2, 4])
        sh = list(s)
        sh[ax] = m
        if int(np.prod(sh)) > MAXN:
            return None
        return [[r.randrange(s[ax]) for _ in range(int(np.prod(sh)))], sh, ax]
    if name == "concat":
        if other.ndim != k or (k and any(a != b for i, (a, b) in enumerate(zip(s, other.shape)) if i != ax)) or 2 * n + other.size > MAXN:
            return None
        return [ax, r.choice([1, 2, 2, 3])]
    if name == "stack":
        return [r.randrange(k + 1), r.choice([1, 2, 2, 3])] if other.shape == s and 3 * n <= MAXN and k < 3 else None
    if name == "split":
        if not k or s[ax] < 2:
            return None
        if r.random() < .5:
            ds = [d for d in range(2, s[ax] + 1) if s[ax] % d == 0]
            d = r.choice(ds)
            return [d, ax, r.randrange(d)]
        c = sorted(r.sample(range(1, s[ax]), min(2, s[ax] - 1)))
        return [c, ax, r.randrange(len(c) + 1)]
    if name == "pad":
        kk = max(k, 1)
        form = r.randrange(4)
        if form == 0:
            w = r.randrange(0, 3)
            full = [[w, w]] * kk
        elif form == 1:
            w = [r.randrange(3), r.randrange(3)]
            full = [w] + [[0, 0]] * (kk - 1)
        elif form == 2:
            w = [[r.randrange(3), r.randrange(3)] for _ in range(kk)]
            full = w
        else:
            if kk == 2:
                return None
            w = [r.randrange(3) for _ in range(kk)]
            full = [[x, x] for x in w]
        if int(np.prod([d + a + b for d, (a, b) in zip(s or (1,), full)])) > MAXN:
            return None
        mode = r.choice(["constant", "constant", "edge", "wrap", "symmetric"])
        if mode != "constant" and not n:
            return None
        return [w, full, mode]
    if name in ("where", "wnb"):
        if other.shape != s or (name == "where" and not scalar):
            return None
        if name == "where" and k and r.random() < .3:
            return [[int(r.random() < .5) for _ in range(s[-1])], [s[-1]]]
        return [[int(r.random() < .5) for _ in range(n)], list(s)]
    if name == "get":
        if not k or not n:
            return None
        form = r.randrange(10)
        if form == 6:
            return ["slice", *r.choice([[None, None, -1], [-1, None, -2], [-2, None, None], [None, -1, 1]])] if s[0] > 1 else None
        if form == 7:
            return ["mixed", [r.choice([r.randrange(d), ["s", r.randrange(d), d]]) for d in s[: r.randint(1, k)]]]
        if form == 8:
            return ["arrays", [[r.randrange(d) for _ in range(3)] for d in s[:2]]] if k >= 2 and n // (s[0] * s[1]) * 3 <= MAXN else None
        if form == 9:
            m = [int(r.random() < .5) for _ in range(n)]
            return ["ndmask", m] if k >= 2 and any(m) else None
        if form == 0:
            return ["int", r.randrange(-s[0], s[0])]
        if form == 1:
            a, b = sorted([r.randrange(s[0] + 1), r.randrange(s[0] + 1)])
            if a == b:
                return None
            return ["slice", a, b, r.choice([1, 1, 2])]
        if form == 2:
            return ["array", [r.randrange(-s[0], s[0]) for _ in range(4)]] if n // s[0] * 4 <= MAXN else None
        if form == 3:
            return ["tuple", [r.randrange(d) for d in s[: r.randint(1, k)]]]
        if form == 4:
            return ["mask", [int(r.random() < .6) for _ in range(s[0])]]
        return ["newaxis"] if k < 3 else None
    if name == "set":
        if not k or not n:
            return None
        a, b = sorted([r.randrange(s[0] + 1), r.randrange(s[0] + 1)])
        form = r.randrange(7)
        if form == 3:
            return ["array", r.sample(range(s[0]), r.randint(1, s[0])), r.randrange(20)]
        if form == 4:
            return ["mask", [int(r.random() < .5) for _ in range(s[0])], r.randrange(20)]
        if form == 5:
            return ["tuple", [r.randrange(d) for d in s], r.randrange(20)]
        if form == 6:
            return ["arrays", [[r.randrange(d)] for d in s[:2]], r.randrange(20)] if k >= 2 else None
        if form == 0:
            return ["int", r.randrange(-s[0], s[0]), r.randrange(20)]
        if form == 1:
            return ["slice", a, b, r.randrange(20)] if a < b else None
        return ["rev", other.shape == s]
    if name in ("vstack", "hstack", "dstack", "column_stack", "block"):
        if not scalar or other.shape != s or 2 * n > MAXN or k > 2 or k < 1 or (name == "column_stack" and k != 1):
            return None
        return []
    if name in ("atleast_1d", "atleast_2d", "atleast_3d"):
        return [] if scalar else None
    if name == "tile":
        return [[r.choice([1, 2]) for _ in range(r.randint(1, max(k, 1)))]] if scalar and 2 ** max(k, 1) * n <= MAXN else None
    if name == "broadcast_to":
        return [[2] + list(s)] if scalar and 2 * n <= MAXN and k < 3 else None
    if name == "broadcast_arrays":
        if scalar and r.random() < .8:
            try:
                return [] if int(np.prod(np.broadcast_shapes(s, other.shape))) <= MAXN else None
            except ValueError:
                return None
        return [] if other.shape == s else None
    if name == "equal":
        return [r.choice(["==", "!=", "equal", "not_equal", "allclose"])] if other.shape == s and n else None
    return None


OPS = ["iter", "reshape", "reshape", "flatten", "transpose", "swapaxes", "moveaxis", "expand_dims", "squeeze", "roll", "flip", "rot90", "repeat", "take", "take",
       "take_along_axis", "concat", "concat", "stack", "split", "pad", "pad", "where", "wnb", "get", "get", "set", "set", "vstack", "hstack", "dstack",
       "column_stack", "block", "atleast_1d", "atleast_2d", "atleast_3d", "tile", "broadcast_to", "broadcast_arrays", "equal", "equal"]
TWO = {"concat", "stack", "where", "wnb", "vstack", "hstack", "dstack", "column_stack", "block", "broadcast_arrays", "equal"}


def mixed(parts):
    return tuple(slice(p[1], p[2]) if isinstance(p, list) else p for p in parts)


def library(name, a, style):
    """The library call, as a function of one or two instances."""
    from xtructure import numpy as xnp

    meth = style % 2

    if name == "reshape":
        if len(a) % 2:
            return (lambda x: x.reshape(*a)) if meth else (lambda x: xnp.reshape(x, list(a)))
        return (lambda x: x.reshape(tuple(a))) if meth else (lambda x: xnp.reshape(x, tuple(a)))
    if name == "iter":
        return lambda x: [row for _, row in zip(range(MAXN + 1), x)]
    if name == "flatten":
        return (lambda x: x.flatten()) if meth else (lambda x: xnp.flatten(x))
    if name == "transpose":
        axes = None if a == "none" else tuple(a)
        return (lambda x: x.transpose(axes)) if meth else (lambda x: xnp.transpose(x, axes))
    if name in ("swapaxes", "moveaxis", "expand_dims", "roll", "flip"):
        b = [tuple(v) if isinstance(v, list) else v for v in a]
        return (lambda x: getattr(x, name)(*b)) if meth else (lambda x: getattr(xnp, name)(x, *b))
    if name == "squeeze":
        b = tuple(a[0]) if isinstance(a[0], list) else a[0]
        return (lambda x: x.squeeze(axis=b)) if meth else (lambda x: xnp.squeeze(x, axis=b))
    if name == "rot90":
        return (lambda x: x.rot90(a[0], tuple(a[1]))) if meth else (lambda x: xnp.rot90(x, a[0], tuple(a[1])))
    if name == "repeat":
        reps = np.array(a[0]) if isinstance(a[0], list) else a[0]
        return lambda x: xnp.repeat(x, reps, axis=a[1])
    if name == "take":
        return lambda x: xnp.take(x, jnp.array(a[0]), axis=a[1])
    if name == "take_along_axis":
        return lambda x: xnp.take_along_axis(x, jnp.array(a[0]).reshape(a[1]), axis=a[2])
    if name == "concat":
        return (lambda x, y: xnp.concat([x, y, x][:a[1]], axis=a[0])) if meth else (lambda x, y: xnp.concatenate((x, y, x)[:a[1]], axis=a[0]))
    if name == "stack":
        return lambda x, y: xnp.stack([x, y, x][:a[1]], axis=a[0])
    if name == "split":
        return lambda x: list(xnp.split(x, a[0] if isinstance(a[0], int) else np.array(a[0]) if meth else tuple(a[0]), axis=a[1]))
    if name == "pad":
        w = a[0] if isinstance(a[0], int) else tuple(tuple(x) if isinstance(x, list) else x for x in a[0])
        return (lambda x: x.pad(w, mode=a[2])) if meth and a[2] != "constant" else (lambda x: xnp.pad(x, w, mode=a[2]))
    if name == "where":
        return lambda x, y: xnp.where(jnp.array(a[0], jnp.bool_).reshape(a[1]), x, y)
    if name == "wnb":
        def wnb(x, y):
            c = jnp.array(a[0], jnp.bool_)
            b = x.shape.batch
            cond = jax.tree_util.tree_map(lambda l: jnp.broadcast_to(c.reshape(b + (1,) * (l.ndim - len(b))), l.shape), x)
            return xnp.where_no_broadcast(cond, x, y)
        return wnb
    if name == "get":
        ix = {"int": lambda: a[1], "slice": lambda: slice(*a[1:]), "mixed": lambda: mixed(a[1]), "arrays": lambda: tuple(jnp.array(v) for v in a[1]),
              "ndmask": lambda: a[1], "array": lambda: jnp.array(a[1]), "tuple": lambda: tuple(a[1]),
              "mask": lambda: np.array(a[1], bool), "newaxis": lambda: None}[a[0]]()
        if a[0] == "ndmask":
            return lambda x: x[np.array(a[1], bool).reshape(x.shape.batch)]
        return lambda x: x[ix]
    if name in ("vstack", "hstack", "dstack", "column_stack"):
        return lambda x, y: getattr(xnp, name)([x, y])
    if name == "block":
        return lambda x, y: xnp.block([x, y])
    if name.startswith("atleast"):
        return lambda x: getattr(xnp, name)(x)
    if name == "tile":
        return lambda x: xnp.tile(x, tuple(a[0]))
    if name == "broadcast_to":
        return (lambda x: x.broadcast_to(tuple(a[0]))) if meth else (lambda x: xnp.broadcast_to(x, tuple(a[0])))
    if name == "broadcast_arrays":
        return lambda x, y: list(xnp.broadcast_arrays(x, y))
    raise KeyError(name)


def numpy_model(name, a, x, y):
    if name == "reshape":
        return x.reshape(a)
    if name == "flatten":
        return x.reshape(-1)
    if name == "iter":
        return list(x)
    if name == "transpose":
        return np.transpose(x, None if a == "none" else a)
    if name in ("swapaxes", "moveaxis", "expand_dims", "roll", "flip", "squeeze"):
        return getattr(np, name)(x, *(tuple(v) if isinstance(v, list) else v for v in a))
    if name == "rot90":
        return np.rot90(x, a[0], tuple(a[1]))
    if name == "repeat":
        return np.repeat(x, a[0], axis=a[1])
    if name == "take":
        return np.take(x, a[0], axis=a[1])
    if name == "take_along_axis":
        return np.take_along_axis(x, np.array(a[0]).reshape(a[1]), axis=a[2])
    if name == "concat":
        if not x.ndim:
            return np.stack([x, y, x][:a[1]]) if a[1] > 1 else x
        return np.concatenate([x, y, x][:a[1]], axis=a[0])
    if name == "stack":
        return np.stack([x, y, x][:a[1]], axis=a[0])
    if name == "split":
        return list(np.split(x, a[0], axis=a[1]))
    if name == "pad":
        z = x if x.ndim else x.reshape(1)
        if not any(v for p in a[1] for v in p):
            return x
        if a[2] == "constant":
            return np.pad(z, a[1], constant_values=DEF)
        return np.pad(z, a[1], mode=a[2])
    if name in ("where", "wnb"):
        return np.where(np.array(a[0], bool).reshape(a[1]), x, y)
    if name == "get":
        return {"mixed": lambda: x[mixed(a[1])], "arrays": lambda: x[tuple(np.array(v) for v in a[1])], "ndmask": lambda: x[np.array(a[1], bool).reshape(x.shape)],
                "int": lambda: x[a[1]], "slice": lambda: x[slice(*a[1:])], "array": lambda: x[np.array(a[1])], "tuple": lambda: x[tuple(a[1])],
                "mask": lambda: x[np.array(a[1], bool)], "newaxis": lambda: x[None]}[a[0]]()
    if name in ("vstack", "hstack", "dstack", "column_stack"):
        return getattr(np, name)([x, y])
    if name == "block":
        return np.block([x, y])
    if name.startswith("atleast"):
        return getattr(np, name)(x)
    if name == "tile":
        return np.tile(x, a[0])
    if name == "broadcast_to":
        return np.broadcast_to(x, a[0])
    if name == "broadcast_arrays":
        return list(np.broadcast_arrays(x, y))
    raise KeyError(name)


class Run:
    def __init__(self, ctx, cfg):
        self.ctx, self.cfg = ctx, cfg
        self.p = wild_pool(cfg["cls"], 24, 7)
        d = [np.asarray(x) for x in jax.tree_util.tree_leaves(self.p.cls.default())]
        # Row n is the default record.
        self.rows = [np.concatenate([x, z[None]]) for x, z in zip(self.p.leaves, d)]
        self.live = []

    def build(self, ids):
        leaves = [jnp.asarray(x[np.where(ids == DEF, len(x) - 1, ids)]) for x in self.rows]
        return jax.tree_util.tree_unflatten(self.p.tree, leaves)

    def check(self, obj, ids, why):
        ids = np.asarray(ids)
        if type(obj) is not self.p.cls:
            fail("record-type", f"{why}: got a {type(obj).__name__}")
        leaves = jax.tree_util.tree_leaves(obj)
        for (path, sh, dt), leaf, rows in zip(self.p.specs, leaves, self.rows):
            got = np.asarray(leaf)
            want = rows[np.where(ids == DEF, len(rows) - 1, ids)]
            if got.dtype != dt:
                fail("record-dtype", f"{why}: field {path} became {got.dtype}")
            if got.shape != want.shape:
                fail("record-shape", f"{why}: field {path} has shape {got.shape}, expected {want.shape}")
            if got.tobytes() != np.ascontiguousarray(want).tobytes():
                fail("record-value", f"{why}: field {path} does not hold the expected records {ids.tolist()}")
        sh = obj.shape
        if tuple(sh.batch) != ids.shape or obj.ndim != ids.ndim or (ids.ndim and len(obj) != ids.shape[0]):
            fail("record-shape", f"{why}: reports batch {sh.batch}, expected {ids.shape}")
        if obj.structured_type.name != ("BATCHED" if ids.ndim else "SINGLE"):
            fail("record-shape", f"{why}: reports {obj.structured_type}")

    def step(self, op):
        ctx, cfg = self.ctx, self.cfg
        k, mode = op["op"], op["mode"]
        if k == "new" or not self.live:
            r = rng("rec", op["seed"])
            sh = cfg["shapes"][r.randrange(len(cfg["shapes"]))]
            ids = np.array([r.randrange(self.p.n) for _ in range(int(np.prod(sh)))], dtype=np.int64).reshape(sh)
            self.push(self.build(ids), ids)
            return
        x, ix = self.live[op["a"] % len(self.live)]
        if k == "ckpt":
            y = ctx.restart(x)
            self.check(y, ix, "after a restart")
            self.push(y, ix)
            return
        r = rng("recp", op["seed"])
        cand = [self.live[op["b"] % len(self.live)]] + self.live
        if k in TWO or k == "set":
            same = [c for c in cand if c[1].shape == ix.shape]
            y, iy = same[0] if same and r.random() < .9 else cand[0]
        else:
            y, iy = cand[0]
        a = plan(k, r, ix, iy, cfg["cls"] in SCALAR)
        if a is None:
            return
        why = f"{k}{a} on batch {ix.shape}" + (f" and {iy.shape}" if k in TWO else "")
        if mode == "dev" and k in ("equal", "get"):
            mode = "api"
        if k == "equal":
            self.equal(a[0], x, ix, y, iy)
            return
        if k == "set":
            self.set(op, a, x, ix, y, iy, why, mode)
            return
        f = library(k, a, op["style"])
        args = (x, y) if k in TWO else (x,)
        fid = (k, cfg["cls"], repr(a), ix.shape, iy.shape if k in TWO else None, op["style"] % 2)
        if op.get("intr"):
            ctx.interrupted(fid, f, *args, at=1 + op["intr"])
        want = numpy_model(k, a, ix, iy)
        if mode == "vmap" and (k not in ("get",) or a[0] not in ("mask", "ndmask")):
            # Two copies in lock step: the second one with its records permuted.
            perm = np.arange(self.p.n)
            rng("perm", op["seed"]).shuffle(perm)
            tr = lambda i: np.where(i == DEF, DEF, perm[np.where(i == DEF, 0, i)])  # noqa: E731
            args2 = tuple(self.build(tr(i)) for i in ((ix, iy) if k in TWO else (ix,)))
            both = [jax.tree_util.tree_map(lambda u, v: jnp.stack([jnp.asarray(u), jnp.asarray(v)]), p, q) for p, q in zip(args, args2)]
            out = ctx.lib(fid + ("vmap",), jax.vmap(f), *both, mode="jit")
            second = jax.tree_util.tree_map(lambda l: l[1], out)
            out = jax.tree_util.tree_map(lambda l: l[0], out)
            for o, w in zip(second if isinstance(want, list) else [second], want if isinstance(want, list) else [want]):
                self.check(o, tr(np.asarray(w)), why + " under vmap")
        else:
            mode = "api" if mode == "vmap" or (k == "get" and a[0] in ("mask", "ndmask")) else mode
            out = ctx.lib(fid, f, *args, mode=mode, seed=op["seed"])
        if isinstance(want, list):
            if len(out) != len(want):
                fail("record-shape", f"{why}: {len(out)} parts, expected {len(want)}")
            for o, w in zip(out, want):
                self.check(o, w, why)
            if not want:
                return
            j = r.randrange(len(want))
            out, want = out[j], want[j]
        else:
            self.check(out, want, why)
        self.push(out, np.asarray(want))

    def equal(self, form, x, ix, y, iy):
        from xtructure import numpy as xnp

        ctx = self.ctx
        same = bool((ix == iy).all())
        cmp = {"==": lambda p, q: p == q, "!=": lambda p, q: p != q,
               "equal": lambda p, q: jax.tree_util.tree_reduce(jnp.logical_and, jax.tree_util.tree_map(jnp.all, xnp.equal(p, q))),
               "not_equal": lambda p, q: jax.tree_util.tree_reduce(jnp.logical_or, jax.tree_util.tree_map(jnp.any, xnp.not_equal(p, q))),
               "allclose": lambda p, q: xnp.allclose(p, q)}[form]
        got = bool(ctx.lib(("eq", form, self.cfg["cls"], ix.shape), cmp, x, y, mode="api"))
        if form == "allclose" and not same:
            return
        # Element values decide: NaN differs from itself and negative zero equals zero.
        same = all(bool(np.all(w[np.where(ix == DEF, len(w) - 1, ix)] == w[np.where(iy == DEF, len(w) - 1, iy)])) for w in self.rows)
        want = same if form not in ("!=", "not_equal") else not same
        if got != want:
            fail("record-equality", f"{form}: got {got} for records {ix.tolist()} and {iy.tolist()}")

    def set(self, op, a, x, ix, y, iy, why, mode):
        before = [l.tobytes() for l in np_tree(x)]
        want = np.array(ix)
        if a[0] == "int":
            v = self.build(np.array(a[2]))
            out = self.ctx.lib(("set", self.cfg["cls"], ix.shape, a[1]), lambda p, q: p.at[a[1]].set(q), x, v, mode=mode if mode != "vmap" else "jit", seed=op["seed"])
            want[a[1]] = a[2]
        elif a[0] == "slice":
            v = self.build(np.array(a[3]))
            out = self.ctx.lib(("set", self.cfg["cls"], ix.shape, a[1], a[2]), lambda p, q: p.at[a[1]:a[2]].set(q), x, v, mode="api", seed=op["seed"])
            want[a[1]:a[2]] = a[3]
        elif a[0] in ("array", "mask", "tuple", "arrays"):
            v = self.build(np.array(a[2]))
            ix2 = {"array": lambda m: m.array(a[1]), "mask": lambda m: np.array(a[1], bool), "tuple": lambda m: tuple(a[1]),
                   "arrays": lambda m: tuple(m.array(q) for q in a[1])}[a[0]]
            out = self.ctx.lib(("set", self.cfg["cls"], ix.shape, repr(a[:2])), lambda p, q: p.at[ix2(jnp)].set(q), x, v,
                               mode="api" if mode in ("vmap", "dev") else mode, seed=op["seed"])
            want[ix2(np)] = a[2]
        else:
            if not a[1]:
                return
            out = self.ctx.lib(("set", self.cfg["cls"], ix.shape, "rev"), lambda p, q: p.at[::-1].set(q), x, y, mode="api")
            want[::-1] = iy
        self.check(out, want, why)
        if [l.tobytes() for l in np_tree(x)] != before:
            fail("mutated", f"{why} changed its input")
        self.push(out, want)

    def push(self, obj, ids):
        self.live.append((obj, ids))
        if len(self.live) > 6:
            self.live.pop(0)
        self.ctx.state(self.cfg["cls"], ids.shape, ids.tobytes())


def variants(tier):
    q = tier == "quick"
    out = []
    shapes = [[[6], [6], [4]], [[2, 3], [2, 3], [3]], [[4], [2, 2], []], [[3, 2], [6], [1, 3]], [[2, 2, 2], [5]], [[0], [3], [3]]]
    k = 0
    for cls in ("U32", "Nested", "Bits", "Pair32", "NestedArr", "F32", "I8Pair", "Packed", "Half", "IoBitsNest", "U32", "WideU8"):
        for _ in range(1 if q else 5):
            modes = (["api", "jit"], ["api", "vmap"], ["api"], ["jit", "vmap"], ["dev", "api"])[k % 5]
            sh = shapes[k % 6] if q else [s for x in shapes for s in x]
            out.append(({} if k % 7 else {"SIM_X64": "1"}, {"cls": cls, "modes": modes, "shapes": sh, "n": 24}))
            k += 1
    out.append(({}, {"cls": "Nested", "modes": ["api", "jit"], "shapes": [[300], [20, 15], [300]], "n": 14, "runs": .5}))
    return out


class World:
    LEVEL = "exploration"
    TECHNIQUE = "deterministic simulation"
    COMPONENTS = COMPONENTS
    RULE = "a state counts once per distinct arrangement of records (class, batch shape, record ids) reached by a history"
    ASSUMPTIONS = ["axes are non-negative batch axes unless the operation normalises them", "no NaN or -0.0"] + DEV_ASSUME[:1]

    def __init__(self, pid):
        self.ID = pid

    def jobs(self, tier, seed):
        return make_jobs(variants(tier), 40 if tier == "quick" else 300, seed, self.ID)

    def gen(self, cfg, seed):
        r = rng("records", seed)
        ops = [{"op": "new", "mode": "api", "seed": r.randrange(1 << 32)} for _ in range(2)]
        names = [o for o in OPS if cfg["cls"] in SCALAR or o not in
                 ("vstack", "hstack", "dstack", "column_stack", "block", "atleast_1d", "atleast_2d", "atleast_3d", "tile", "broadcast_to", "where")]
        for _ in range(r.randint(4, cfg["n"])):
            op = {"op": r.choice(names + ["new", "ckpt"]), "mode": r.choice(cfg["modes"]), "seed": r.randrange(1 << 32), "a": r.randrange(6), "b": r.randrange(6),
                  "style": r.randrange(2)}
            if r.random() < .08:
                op["intr"] = r.randrange(80)
            ops.append(op)
        return {"cfg": cfg, "seed": seed, "ops": ops}

    def run(self, case):
        ctx = Ctx(case)
        run = Run(ctx, case["cfg"])
        for op in case["ops"]:
            run.step(op)
        for obj, ids in run.live:
            run.check(obj, ids, "at the end")
        return ctx.result()


def make(pid):
    return World(pid)
