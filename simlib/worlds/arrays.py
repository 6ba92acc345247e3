"""Whole-batch array programs under every device order.

P06  merging sorted runs (the Pallas merge-path kernels under a simulated GPU, the XLA path)
P12  unique_mask
P13  conditional and indexed updates

Each run is a history of calls; in P13 every call updates the batch the previous call
produced.  Modes: api, jit, dev (simulated device), vmap (two problems in lock step).
"""

from __future__ import annotations

import jax
import jax.numpy as jnp
import numpy as np

from ..util import Violation, h64, rng
from .base import Ctx, make_jobs, np_tree
from .containers import COMPONENTS, DEV_ASSUME, GPU, TPU
from .hist import pool, wild_pool

FLOATS = ("f16", "bf16", "f32")
DT = {"f16": jnp.float16, "bf16": jnp.bfloat16, "f32": jnp.float32, "f64": jnp.float64, "i32": jnp.int32,
      "u32": jnp.uint32, "u8": jnp.uint8, "i8": jnp.int8, "i16": jnp.int16, "u16": jnp.uint16}


def fail(kind, *msg):
    raise Violation(kind, " ".join(str(m) for m in msg))


def stack2(a, b):
    return jax.tree_util.tree_map(lambda x, y: jnp.stack([jnp.asarray(x), jnp.asarray(y)]), a, b)


def unstack(t, i):
    return jax.tree_util.tree_map(lambda x: x[i], t)


# ============================================================================ P06

SIZES6 = ((4, 4), (1, 1), (1, 6), (7, 2), (3, 8), (13, 4), (5, 5), (16, 16), (0, 5), (6, 0), (9, 1), (2, 21), (8, 7))


def gen_keys(r, n, kd, style):
    lo, hi = {0: (0, 2), 1: (-4, 5), 2: (-200, 200), 3: (0, 60000)}[style]
    if kd[0] == "u":
        lo, hi = 0, hi + 5
    if kd in ("u8", "i8"):
        hi = min(hi, 100)
        lo = max(lo, -100)
    xs = [r.randint(lo, hi) for _ in range(n)]
    if kd[0] in "fb":
        xs = [x * 0.5 if style < 3 else float(x) for x in xs]
        k = r.choice([0, 0, 0, 1, n // 2, n]) if n else 0
        for i in range(k):
            xs[i] = float("inf")
        if r.random() < .3:  # neighbours that a narrower type would merge
            bits = {"f16": 10, "bf16": 7}.get(kd, 23)
            xs = [1 + r.randrange(8) * 2.0**-bits if r.random() < .5 else x for x in xs]
    elif kd in ("i32", "u32") and r.random() < .3:
        top = 2**31 - 1 if kd == "i32" else 2**32 - 1
        xs = [r.choice([top - r.randrange(3), (1 << 24) + r.randrange(3), 0 if kd == "u32" else -top]) if r.random() < .6 else x for x in xs]
    return xs


class Merge:
    FNS = ("idx", "kv", "split", "backend")

    @staticmethod
    def gen(cfg, r):
        n, m = cfg["sizes"][r.randrange(len(cfg["sizes"]))]
        fn = r.choice(cfg["fns"])
        if fn == "split":
            m = n = max(n, 1)
        kd = cfg["kd"]
        st = r.randrange(4)
        # The library's callers always pass sorted runs.
        a = sorted(gen_keys(r, n, kd, st))
        b = sorted(gen_keys(r, m, kd, r.choice([st, st, r.randrange(4)])))
        if r.random() < .1:
            b = [x for x in a][:m] + [a[-1] if a else 0] * max(0, m - n)
        return {"op": fn, "a": a, "b": b, "mode": cfg["mode"], "seed": r.randrange(1 << 32)}

    @staticmethod
    def run(ctx, cfg, op):
        from xtructure.bgpq import _constants, _merge
        from xtructure.bgpq.merge_split import parallel as par
        from xtructure.bgpq.merge_split import merge_arrays_parallel, merge_sort_split_idx

        dt = DT[cfg["kd"]]
        a, b = jnp.array(op["a"], dt), jnp.array(op["b"], dt)
        n, m = len(op["a"]), len(op["b"])
        p = wild_pool(cfg["cls"], 60, 11)
        # Every element has its own value (values repeat only when the runs are long).
        av = p.take([i % p.n for i in range(n)])
        bv = p.take([(n + i) % p.n for i in range(m)])
        fid = ("merge", op["op"], cfg["kd"], cfg["cls"], n, m)
        run = lambda f, *x: ctx.lib(fid, f, *x, mode=op["mode"], seed=op["seed"])  # noqa: E731
        want = np.sort(np.concatenate([np.asarray(a), np.asarray(b)]).astype(np.float64), kind="stable")
        if op["op"] in ("idx", "backend"):
            f = {"idx": merge_arrays_parallel if ctx.gpu else merge_sort_split_idx,
                 "backend": _constants.merge_array_backend}[op["op"]]
            k, idx = run(f, a, b)
            k, idx = np.asarray(k), np.asarray(idx).astype(np.int64)
            Merge.keys(k, want, dt)
            if sorted(idx.tolist()) != list(range(n + m)):
                fail("merge-lost", f"merged indices are not a permutation of {n + m}: {idx.tolist()}")
            src = np.concatenate([np.asarray(a), np.asarray(b)])
            if src[idx].astype(np.float64).tolist() != want.tolist():
                fail("merge-pairing", "merged indices do not point at the merged keys")
            return
        if op["op"] == "kv":
            k, v = run(par.merge_arrays_parallel_kv, a, av, b, bv)
            k, ids = np.asarray(k), p.ids(v)
        else:
            k1, v1, k2, v2 = run(_merge.merge_sort_split, a, av, b, bv)
            if np.asarray(k1).shape[0] != n:
                fail("merge-split", "first half has the wrong length")
            k = np.concatenate([np.asarray(k1), np.asarray(k2)])
            ids = p.ids(v1) + p.ids(v2)
        Merge.keys(k, want, dt)
        src = np.concatenate([np.asarray(a), np.asarray(b)]).astype(np.float64).tolist()
        exp = sorted((x, i % p.n) for i, x in enumerate(src))
        got = sorted(zip(k.astype(np.float64).tolist(), ids))
        if exp != got:
            fail("merge-pairing", f"merged pairs differ: want {exp[:12]} got {got[:12]}")

    @staticmethod
    def keys(k, want, dt):
        if k.dtype != np.dtype(dt):
            fail("merge-keys", f"key type changed to {k.dtype}")
        if k.astype(np.float64).tolist() != want.tolist():
            fail("merge-keys", f"want {want.tolist()[:20]} got {k.astype(np.float64).tolist()[:20]}")

    @staticmethod
    def variants(tier):
        out = []
        q = tier == "quick"
        k = 0
        for bs in ("2", "4", "3", "1", "auto"):
            for kd, cls in (("f16", "Nested"), ("f32", "Bits"), ("bf16", "U32"), ("i32", "I8Pair")):
                k += 1
                if q and k % 2:
                    continue
                env = {**GPU, "XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE": bs, "XTRUCTURE_BGPQ_MERGE_VALUE_BACKEND": ("on", "off")[k // 2 % 2],
                       "XTRUCTURE_BGPQ_MERGE_VALUE_PACKING": ("auto", "pad", "scalar", "shard")[k // 3 % 4]}
                if k % 5 == 0:
                    env["XTRUCTURE_BGPQ_MERGE_UNROLL_MAX"] = "0"
                r = rng("p06", k)
                out.append((env, {"kd": kd, "cls": cls, "mode": "dev", "fns": ["idx", "kv", "split"],
                                  "sizes": r.sample(SIZES6, 3 if q else 8), "n": 14}))
        for kd, cls, rr in (("f16", "Nested", "gather"), ("f32", "U32", "concat"), ("i32", "Bits", "gather")):
            out.append(({"XTRUCTURE_BGPQ_VALUE_REORDER": rr}, {"kd": kd, "cls": cls, "mode": "jit", "fns": ["backend", "split"],
                                                               "sizes": [(300, 300), (257, 130), (64, 513)], "n": 8, "runs": .3}))
            for mode in ("api", "dev"):
                out.append(({"XTRUCTURE_BGPQ_VALUE_REORDER": rr}, {"kd": kd, "cls": cls, "mode": mode, "fns": ["backend", "split"],
                                                                   "sizes": SIZES6[:6], "n": 14}))
        return out


# ============================================================================ P12

KEYFNS = {
    "default": None,
    "leaf0": lambda ls, xp: ls[0].reshape(-1),
    "last": lambda ls, xp: ls[-1].reshape(-1),
    "floats": lambda ls, xp: xp.concatenate([x.reshape(-1).astype(xp.float32) for x in ls]),
    "halves": lambda ls, xp: xp.concatenate([x.reshape(-1).astype(xp.float32) for x in ls]).astype(xp.float16),
    "doubles": lambda ls, xp: xp.concatenate([x.reshape(-1).astype(xp.float64) / 3 for x in ls]),
    "longs": lambda ls, xp: xp.concatenate([x.reshape(-1).astype(xp.int64) * 0x100000001 - 7 for x in ls]),
    "tail3": lambda ls, xp: xp.concatenate([x.reshape(-1).astype(xp.float32) for x in ls])[-3:],
}
_KF = {}


def key_fn(name):
    if name not in _KF:
        f = KEYFNS[name]
        _KF[name] = None if f is None else (lambda x: f(jax.tree_util.tree_leaves(x), jnp))
    return _KF[name]


def row_classes(name, leaves):
    n = len(leaves[0])
    if KEYFNS[name] is None:
        return [b"|".join(np.ascontiguousarray(x[i]).tobytes() for x in leaves) for i in range(n)]
    out = []
    for i in range(n):
        with np.errstate(all="ignore"):
            v = KEYFNS[name]([x[i] for x in leaves], np)
        out.append(tuple(np.asarray(v).astype(np.float64 if v.dtype.kind not in "iu" else v.dtype).tolist()))
    return out


def _cost(x, kd):
    """Saturated costs are costs too."""
    if x in ("max", "-max"):
        m = float(jnp.finfo(DT[kd]).max)
        return m if x == "max" else -m
    return float(x)


class Unique:
    @staticmethod
    def forms(cfg):
        r = rng("p12forms", cfg["cls"], cfg["form"])
        out = []
        for i in range(cfg.get("forms", 3)):
            # Few distinct shapes, in which keys, masks and returned parts all occur.
            ret = (["mask", "idx", "both", "inv"], ["both", "sized"], ["mask", "both", "sized"])[i]
            out.append({"n": cfg.get("len") or (r.choice([1, 2, 5, 8, 11, 17, 33]) if i else r.choice([8, 13, 24])), "key": i != 1 and r.random() < .75,
                        "filled": r.random() < .7, "ret": r.choice(ret), "kd": r.choice(["f32", "f32", "f16", "bf16"]),
                        "fn": r.choice(cfg["keyfns"])})
        return out

    @staticmethod
    def gen(cfg, r):
        fs = Unique.forms(cfg)
        f = fs[r.randrange(len(fs))]
        p = pool(cfg["cls"], cfg.get("pool", 24), 7)
        n = f["n"]
        mode = r.choice(cfg["modes"])
        op = {"op": "unique", "form": f, "mode": mode, "seed": r.randrange(1 << 32), "probs": []}
        for _ in range(2 if mode == "vmap" else 1):
            hot = r.sample(range(p.n), min(p.n, max(1, r.choice([1, 2, 3, n, p.n]))))
            pr = {"ids": [r.choice(hot) for _ in range(n)]}
            if f["key"]:
                pr["key"] = [r.choice([-2.0, 0.0, 0.0, .5, 1.0, 7.0, "inf", "-inf", "max", "max", "-max"]) for _ in range(n)]
            if f["filled"]:
                q = r.choice([1.0, .8, .5, .1, 0.0])
                pr["filled"] = [int(r.random() < q) for _ in range(n)]
            op["probs"].append(pr)
        op["size"] = max(1, n + r.choice([0, 0, 3, -n // 2])) if f["ret"] == "sized" else None
        # A few sizes only: each is a compilation.
        if op["size"] is not None:
            op["size"] = r.choice([n, n + 3, max(1, n // 2)])
            op["fill"] = r.choice([None, -1, n])
        return op

    @staticmethod
    def run(ctx, cfg, op):
        from xtructure import numpy as xnp
        from xtructure.core.xtructure_numpy.dataclass_ops.unique_ops import unique_mask as full

        f = op["form"]
        p = pool(cfg["cls"], cfg.get("pool", 24), 7)
        mode, n = op["mode"], f["n"]
        names = [k for k in ("key", "filled") if f[k]]
        kw = {}
        if f["ret"] in ("idx", "both", "sized"):
            kw["return_index"] = True
        if f["ret"] in ("inv", "both", "sized"):
            kw["return_inverse"] = True
        if f["ret"] == "sized":
            kw.update(size=op["size"], fill_value=op["fill"])
        kf = key_fn(f["fn"])

        def call(x, *rest):
            return (full if f["ret"] == "sized" else xnp.unique_mask)(x, key_fn=kf, **dict(zip(names, rest)), **kw)

        args = []
        for pr in op["probs"]:
            a = [p.take(pr["ids"])]
            if "key" in pr:
                a.append(jnp.array([_cost(x, f["kd"]) for x in pr["key"]], DT[f["kd"]]))
            if "filled" in pr:
                a.append(jnp.array(pr["filled"], jnp.bool_))
            args.append(a)
        fid = ("unique", cfg["cls"], repr(f), repr(kw), mode == "vmap")
        if mode == "vmap" and len(args) > 1:
            out = ctx.lib(fid, jax.vmap(call), *[stack2(x, y) for x, y in zip(*args)], mode="jit")
            outs = [unstack(out, 0), unstack(out, 1)]
            mode = "jit"
        else:
            mode = "api" if mode == "vmap" else mode
            outs = [ctx.lib(fid, call, *args[0], mode=mode, seed=op["seed"])]
        for pr, o in zip(op["probs"], outs):
            Unique.check(ctx, p, f, op, pr, o, kw, traced=mode != "api")

    @staticmethod
    def check(ctx, p, f, op, pr, out, kw, traced):
        n = f["n"]
        leaves = [x[pr["ids"]] for x in p.leaves]
        cl = row_classes(f["fn"], leaves)
        key = [float(np.asarray(_cost(k, f["kd"]), DT[f["kd"]])) for k in pr["key"]] if "key" in pr else [0.0] * n
        ok = [bool(v) for v in pr.get("filled", [1] * n)]
        ok = [o and k < float("inf") for o, k in zip(ok, key)]
        best = {}
        for i in range(n):
            if ok[i] and (cl[i] not in best or key[i] < key[best[cl[i]]]):
                best[cl[i]] = i
        reps = sorted(best.values())
        parts = list(out) if isinstance(out, (tuple, list)) else [out]
        mask = np.asarray(parts.pop(0))
        if mask.shape != (n,) or mask.dtype != np.bool_:
            fail("unique-mask", f"mask is {mask.dtype}{mask.shape}")
        if np.nonzero(mask)[0].tolist() != reps:
            fail("unique-mask", f"representatives {np.nonzero(mask)[0].tolist()}, expected {reps}; ids={pr['ids']} key={pr.get('key')} filled={pr.get('filled')}")
        ctx.state("unique", f["fn"], tuple(reps), n, tuple(pr["ids"]))
        idx = None
        if kw.get("return_index"):
            idx = np.asarray(parts.pop(0)).tolist()
            if f["ret"] == "sized":
                want_len, fill = op["size"], (0 if op["fill"] is None else op["fill"])
            elif traced:
                want_len, fill = n, n
            else:
                want_len, fill = len(reps), None
            if len(idx) != want_len:
                fail("unique-index", f"{len(idx)} indices, expected {want_len}")
            k = min(len(reps), want_len)
            if len(set(idx[:k])) != k or not set(idx[:k]) <= set(reps) or any(x != fill for x in idx[k:]):
                fail("unique-index", f"indices {idx} for representatives {reps}")
        if kw.get("return_inverse"):
            inv = np.asarray(parts.pop(0)).tolist()
            if len(inv) != n:
                fail("unique-inverse", f"inverse has {len(inv)} rows")
            groups = {}
            for i in range(n):
                if not ok[i]:
                    continue
                g = inv[i]
                if not 0 <= g < len(reps):
                    fail("unique-inverse", f"row {i} in group {g} of {len(reps)}")
                if groups.setdefault(g, cl[i]) != cl[i]:
                    fail("unique-inverse", f"row {i} shares group {g} with a different value")
                if idx is not None and g < min(len(idx), len(reps)) and idx[g] != best[cl[i]]:
                    fail("unique-inverse", f"row {i}: indices[inverse]={idx[g]}, representative {best[cl[i]]}")
            if len(groups) != len(reps):
                fail("unique-inverse", f"{len(groups)} groups for {len(reps)} distinct values")

    @staticmethod
    def variants(tier):
        q = tier == "quick"
        out = []
        base = ["default", "default", "floats", "leaf0"]
        k = 0
        for cls in ("Bits", "BitsWide", "WideU8", "WideF32", "Nested", "Half", "WideU32", "U32", "F32", "NestedArr", "IoBitsNest", "I8Pair", "Packed"):
            for form in range(1 if q else 4):
                kf = list(base)
                if cls in ("Bools",):
                    kf = ["default", "floats"]
                if cls in ("WideF32", "F32", "Half"):
                    kf += ["halves", "tail3", "last"]
                modes = (["api", "jit"], ["dev", "vmap"], ["api", "dev"], ["jit", "vmap", "api"])[(k + form) % 4]
                out.append(({}, {"cls": cls, "form": form, "keyfns": kf, "modes": modes if q else ["api", "jit", "dev", "vmap"], "n": 12,
                                 "forms": 2 if q else 3}))
            k += 1
        # rows past what 8- and 16-bit row numbers reach, and exactly there
        for cls, n in (("U32", 256), ("U32", 40000), ("Bits", 65536)):
            out.append(({}, {"cls": cls, "form": 6 + n % 3, "modes": ["jit", "api"], "keyfns": ["default"], "n": 3, "forms": 2, "len": n,
                             "pool": 320, "runs": .2 if n > 1000 else .5}))
        for cls, n in (("Nested", 300), ("U32", 515)):
            out.append(({}, {"cls": cls, "form": 5, "modes": ["jit", "api"], "keyfns": ["default"], "n": 8, "forms": 2, "len": n,
                             "pool": 320, "runs": .4}))
        for cls in ("WideF32", "Bits", "WideU32", "F32", "Nested"):
            out.append(({"SIM_X64": "1"}, {"cls": cls, "form": 9, "modes": ["api", "jit", "dev"] if not q else [["api"], ["jit"], ["dev"]][k % 3],
                                           "keyfns": ["default", "doubles", "longs", "floats"], "n": 12, "forms": 2 if q else 3}))
            k += 1
        return out


# ============================================================================ P13


IDT = [["i32", "u8"], ["u32", "i8"], ["i16", "u8"], ["i32", "i8"]]
VALS = [["inst", "one"], ["inst"], ["inst", "scalar"]]


class Cond:
    @staticmethod
    def shape(cfg):
        return tuple(cfg["shape"])

    @staticmethod
    def gen(cfg, r):
        shape = Cond.shape(cfg)
        rank, n0 = len(shape), shape[0]
        p = wild_pool(cfg["cls"], 24, 7)
        kinds = ["cond", "cond", "cond", "upd", "set", "setat", "read", "slice", "host"]
        if cfg.get("pure"):
            kinds = ["cond", "upd"]
        kind = r.choice(kinds)
        op = {"op": kind, "mode": r.choice(cfg["modes"]), "seed": r.randrange(1 << 32)}
        m = cfg["m"][r.randrange(len(cfg["m"]))]
        if kind in ("cond", "upd"):
            tup = rank > 1 or (rank == 1 and r.random() < .1)
            span = r.choice([1, 2, 3, 10 ** 6])
            idx = []
            for d in range(rank):
                lim = min(span, shape[d])
                base = r.choice([0, shape[d] - lim, r.randrange(shape[d] - lim + 1)])
                idx.append([base + r.randrange(lim) for _ in range(m)])
            if not tup and r.random() < .3:
                # One-dimensional indices outside the batch are dropped.
                for j in range(m):
                    if r.random() < .25:
                        idx[0][j] = r.choice([n0, n0 + 1, n0 + 100, -1, -n0])
            dts = ["i32", "i32", "u32", "i16", "u8", "i8"]
            dt = r.choice(cfg.get("idt", dts[:3]))
            if not tup:
                ii = np.iinfo(np.dtype(DT[dt]))
                idx = [[min(max(x, int(ii.min)), int(ii.max)) for x in idx[0]]]
            else:
                dt = "i32"
            op.update(idx=idx if tup else idx[0], tup=tup, idt=dt,
                      cond=[int(r.random() < r.choice([.5, .9, .2])) for _ in range(m)])
            op["val"] = r.choice(cfg.get("vals", ["inst", "inst", "inst", "one", "scalar"]))
            op["ids"] = [r.randrange(p.n) for _ in range(m)] if op["val"] == "inst" else r.randrange(p.n)
            if op["val"] == "scalar":
                op["ids"] = r.choice([0, 1])
        elif kind == "set":
            m = min(m, n0)
            op.update(idx=r.sample(range(n0), m), neg=r.random() < .2, ids=[r.randrange(p.n) for _ in range(m)])
            if rank > 1:
                op["ids"] = r.randrange(p.n)
        elif kind == "setat":
            op.update(idx=[r.randrange(s) for s in shape], ids=r.randrange(p.n))
        elif kind == "read":
            op.update(idx=[r.randrange(n0) for _ in range(m)])
        else:
            a = r.randrange(n0)
            op.update(idx=[a, min(n0, a + r.choice([1, 2, 5]))], ids=r.randrange(p.n))
        return op

    @staticmethod
    def start(ctx, cfg):
        p = wild_pool(cfg["cls"], 24, 7)
        shape = Cond.shape(cfg)
        ids = np.arange(int(np.prod(shape))) % p.n
        leaves = [x[ids].reshape(shape + x.shape[1:]) for x in p.leaves]
        inst = jax.tree_util.tree_unflatten(p.tree, [jnp.asarray(x) for x in leaves])
        return [inst, [np.array(x) for x in leaves]]

    @staticmethod
    def run(ctx, cfg, op, state):
        from xtructure import numpy as xnp

        inst, model = state
        p = wild_pool(cfg["cls"], 24, 7)
        shape = Cond.shape(cfg)
        n0, rank = shape[0], len(shape)
        k, mode = op["op"], op["mode"]
        fid = (k, cfg["cls"], shape, op.get("val"), op.get("tup"))
        if op["op"] in ("set", "setat", "slice") and mode == "dev" and k != "set":
            mode = "jit"
        run = lambda f, *x: ctx.lib(fid, f, *x, mode=mode, seed=op["seed"])  # noqa: E731
        if k == "host":  # the batch comes back from host memory
            ctx.faults["checkpoint_restore"] += 1
            return [jax.tree_util.tree_map(np.asarray, inst), model]
        before = [x.tobytes() for x in np_tree(inst)]
        new = [np.array(x) for x in model]
        if k in ("cond", "upd"):
            dt = DT[op["idt"]]
            cond = jnp.array(op["cond"], jnp.bool_)
            m = len(op["cond"])
            idx = tuple(jnp.array(x, dt) for x in op["idx"]) if op["tup"] else jnp.array(op["idx"], dt)
            if op["val"] == "scalar":
                val = jnp.asarray(op["ids"], jnp.uint8)
                rows = None
            else:
                val = p.take(op["ids"])
                rows = [np.array(x[op["ids"]]) for x in p.leaves]

            def f(x, i, c, v):
                if k == "cond":
                    return x.at[i].set_as_condition(c, v)
                return xnp.update_on_condition(x, i, c, v)

            out = run(f, inst, idx, cond, val)
            cols = op["idx"] if op["tup"] else [op["idx"]]
            seen = set()
            for j in range(m):
                at = tuple(c[j] for c in cols)
                if not op["cond"][j] or at in seen:
                    continue
                if any(not 0 <= a < s for a, s in zip(at, shape)):
                    continue
                seen.add(at)
                for li, leaf in enumerate(new):
                    if rows is None:
                        leaf[at] = np.asarray(op["ids"]).astype(leaf.dtype)
                    else:
                        leaf[at] = rows[li][j] if op["val"] == "inst" else rows[li]
        elif k == "set":
            ids = op["ids"]
            idx = [i - n0 if op["neg"] else i for i in op["idx"]]
            out = run(lambda x, i, v: x.at[i].set(v), inst, jnp.array(idx, jnp.int32), p.take(ids))
            for j, i in enumerate(op["idx"]):
                for li, leaf in enumerate(new):
                    leaf[i] = p.leaves[li][ids if isinstance(ids, int) else ids[j]]
        elif k == "setat":
            at = tuple(op["idx"]) if rank > 1 else op["idx"][0]
            out = ctx.lib((k,), lambda x, v: x.at[at].set(v), inst, p.take(op["ids"]), mode="api")
            for li, leaf in enumerate(new):
                leaf[at] = p.leaves[li][op["ids"]]
        elif k == "read":
            got = run(lambda x, i: x[i], inst, jnp.array(op["idx"], jnp.int32))
            for a, b in zip(np_tree(got), model):
                if a.dtype != b.dtype or a.shape != b[op["idx"]].shape or a.tobytes() != b[op["idx"]].tobytes():
                    fail("read", f"rows {op['idx']} read back wrong")
            return state
        else:
            lo, hi = op["idx"]
            got = ctx.lib((k, "r"), lambda x: x[lo:hi], inst, mode="api")
            for a, b in zip(np_tree(got), model):
                if a.tobytes() != np.ascontiguousarray(b[lo:hi]).tobytes():
                    fail("read", f"slice {lo}:{hi} read back wrong")
            out = ctx.lib((k, "w"), lambda x, v: x.at[lo:hi].set(v), inst, p.take(op["ids"]), mode="api")
            for li, leaf in enumerate(new):
                leaf[lo:hi] = p.leaves[li][op["ids"]]
        if type(out) is not type(inst):
            fail("update", f"{k} returned a {type(out).__name__}")
        got = np_tree(out)
        for li, (a, b) in enumerate(zip(got, new)):
            if a.shape != b.shape or a.dtype != b.dtype or a.tobytes() != b.tobytes():
                bad = np.argwhere((a != b).reshape(shape + (-1,)).any(-1))[:5].tolist() if a.shape == b.shape else a.shape
                fail("update", f"{k}: field {p.specs[li][0]} differs at rows {bad}; op={ {x: op[x] for x in ('idx', 'cond', 'idt', 'val', 'ids') if x in op} }")
        if [x.tobytes() for x in np_tree(inst)] != before:
            fail("mutated", f"{k} changed the batch it was called on")
        ctx.state(k, h64(*[x.tobytes() for x in got]))
        return [out, new]

    @staticmethod
    def variants(tier):
        q = tier == "quick"
        out = []
        k = 0
        shapes = [((9,), (1, 4, 7)), ((128,), (6, 20)), ((4, 3), (5, 8)), ((300,), (9,)), ((256,), (12,)), ((1,), (3, 6)), ((2, 3, 2), (7,)), ((17,), (16, 2))]
        for cls in ("Nested", "U32", "Bits", "F32", "NestedArr", "Half", "I8Pair", "IoBitsNest", "Bools", "Packed", "WideU8"):
            for _ in range(1 if q else 4):
                sh, m = shapes[k % len(shapes)]
                modes = (["api", "jit"], ["dev"], ["api", "dev"], ["dev", "jit"])[k % 4] if q else ["api", "jit", "dev"]
                out.append(({}, {"cls": cls, "shape": list(sh), "m": list(m), "modes": modes,
                                 "idt": IDT[k % 4] if q else list(sum(IDT, [])),
                                 "vals": VALS[k % 3] if q else list(sum(VALS, [])), "n": 12}))
                k += 1
        for sh, m in shapes[:5]:
            out.append(({}, {"cls": "U32", "shape": list(sh), "m": list(m), "modes": ["dev"], "idt": IDT[len(out) % 4], "vals": ["inst"], "n": 16, "pure": 1}))
        out.append(({}, {"cls": "U32", "shape": [70000], "m": [40, 300], "modes": ["jit", "api"], "idt": ["i32", "u32"], "vals": ["inst"], "n": 8, "runs": .5}))
        for n in (65536, 32768, 256):
            out.append(({}, {"cls": "U32", "shape": [n], "m": [3, 40], "modes": ["jit", "api"], "idt": ["i32", "u32"], "vals": ["inst"], "n": 10, "runs": .5}))
        # far more updates than rows
        out.append(({}, {"cls": "U32", "shape": [700], "m": [5000, 40000], "modes": ["jit", "api"], "idt": ["i32", "u32", "i16"],
                         "vals": ["inst", "one"], "n": 5, "pure": True, "runs": .3}))
        out.append(({"SIM_X64": "1"}, {"cls": "U32", "shape": [40], "m": [10], "modes": ["api", "dev"], "n": 12}))
        return out


IMPL = {"P06": Merge, "P12": Unique, "P13": Cond}
RUNS = {"P06": (60, 300), "P12": (25, 250), "P13": (24, 250)}


class World:
    LEVEL = "exploration"
    TECHNIQUE = "deterministic simulation"
    COMPONENTS = COMPONENTS
    RULE = {"P06": "a state counts once per distinct kernel schedule (order of memory accesses of all grid programs)",
            "P12": "a state counts once per distinct (batch, representatives) reached",
            "P13": "a state counts once per distinct batch content reached by a history of updates"}
    ASSUMPTIONS = ["keys are finite or +inf, never NaN or -0.0; runs to merge are sorted",
                   "for multi-dimensional index tuples only in-bounds indices are generated"] + DEV_ASSUME

    def __init__(self, pid):
        self.ID = pid
        self.RULE = World.RULE[pid]

    def jobs(self, tier, seed):
        return make_jobs(IMPL[self.ID].variants(tier), RUNS[self.ID][0 if tier == "quick" else 1], seed, self.ID)

    def gen(self, cfg, seed):
        r = rng("arrays", seed)
        im = IMPL[self.ID]
        return {"cfg": cfg, "seed": seed, "ops": [im.gen(cfg, r) for _ in range(r.randint(max(1, cfg["n"] // 2), cfg["n"]))]}

    def run(self, case):
        import os

        ctx = Ctx(case)
        ctx.gpu = os.environ.get("SIM_BACKEND") == "gpu"
        cfg = case["cfg"]
        im = IMPL[self.ID]
        if im is Cond:
            st = Cond.start(ctx, cfg)
            for op in case["ops"]:
                st = Cond.run(ctx, cfg, op, st)
        else:
            for op in case["ops"]:
                im.run(ctx, cfg, op)
        return ctx.result()


def make(pid):
    return World(pid)
