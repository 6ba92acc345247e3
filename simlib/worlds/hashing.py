"""P17: hashes and lane encodings are a function of a value's content and the seed alone.

The same rows are hashed along many routes: called directly, inside the caller's jit, vmap
or lax.map, on the simulated device, after travelling through batches, updates, host memory
and checkpoints, after an interrupted call, and in other processes (fresh interpreter, other
PYTHONHASHSEED, other hashing knobs) that crash and restart between messages.  Every route
must give the answer that the first route gave, and different rows must stay apart.
"""

from __future__ import annotations

import jax
import jax.numpy as jnp
import numpy as np
from jax import lax

from ..classes import Pool
from ..util import Violation, rng
from .base import Ctx, make_jobs
from .containers import COMPONENTS, CPU_ASSUME, DEV_ASSUME
from .hist import pool

SEEDS = [0, 1, 5, 255, 65536, 123456789, 2**31 - 1]
NODES = {"plain": ({}, "11"), "stream": ({"XTRUCTURE_HASH_STREAM": "on"}, "12"),
         "nostream": ({"XTRUCTURE_HASH_STREAM": "off"}, "13"),
         "threshold": ({"XTRUCTURE_HASH_STREAM": "auto", "XTRUCTURE_HASH_STREAM_THRESHOLD_U32": "2"}, "14")}


def fail(kind, *msg):
    raise Violation(kind, " ".join(str(m) for m in msg))


def everything(x, seed):
    """All forms of one row's hash."""
    h, lanes = x.hash_with_uint32ed(seed)
    p, lanes2 = x.hash_pair_with_uint32ed(seed)
    return x.hash(seed), x.hash_pair(seed), h, p, lanes, lanes2, x.uint32ed, x.bytes


def pack(r):
    return [np.asarray(x) for x in jax.tree_util.tree_leaves(r)]


def all_hashes(cls, leaves, seeds):
    """In another process: the forms of every row, for every seed."""
    from ..classes import CLASSES, leaf_specs

    _, tree = leaf_specs(cls)
    assert tree.num_leaves == len(leaves) and cls in CLASSES
    out = []
    for i in range(len(leaves[0])):
        x = jax.tree_util.tree_unflatten(tree, [jnp.asarray(v[i]) for v in leaves])
        out.append([pack(everything(x, s)) for s in seeds])
    return out


FORMS = ["api", "api", "default_seed", "seed_types", "host", "jit", "jit", "vmap", "map", "slice", "set", "stack", "nested_vmap",
         "ckpt", "intr", "replace"]


_NEAR = {}


def near_pool(cls, n, seed):
    """The pool's rows, and rows that differ from one of them in one bit or one special value only."""
    k = (cls, n, seed)
    if k not in _NEAR:
        p = pool(cls, n, seed)
        r = rng("near", *k)
        rows, seen = [], set()

        def add(row):
            b = Pool.row_bytes([np.asarray(x)[None] for x in row], 0)
            if b not in seen:
                seen.add(b)
                rows.append(row)

        for i in range(p.n):  # neighbours in the pool are neighbours in content
            row = [x[i] for x in p.leaves]
            add(row)
            for _ in range(3):
                w = r.randrange(len(row))
                x = np.asarray(row[w])
                j = r.choice([0, x.size - 1, r.randrange(x.size)])
                if jnp.issubdtype(x.dtype, jnp.floating) and "float8" not in str(x.dtype):
                    vals = r.sample([0.0, -0.0, np.inf, -np.inf, np.nan], 2) if r.random() < .5 else [0.0, -0.0]
                elif x.dtype == np.bool_ or x.dtype.kind in "iu":
                    vals = [None]
                else:
                    continue
                for v in vals:
                    x = np.array(x, copy=True)
                    flat = x.reshape(-1)
                    if v is not None:
                        flat[j] = v
                    elif x.dtype == np.bool_:
                        flat[j] = ~flat[j]
                    else:
                        flat.view(np.uint8)[j * flat.itemsize + r.randrange(flat.itemsize)] ^= np.uint8(1 << r.randrange(8))
                    row = row[:w] + [x] + row[w + 1:]
                    add(row)
        _NEAR[k] = Pool(cls, len(rows), 0, fixed=[np.stack([row[i] for row in rows]) for i in range(len(p.leaves))])
    return _NEAR[k]


class Run:
    def __init__(self, ctx, cfg):
        self.ctx, self.cfg = ctx, cfg
        self.pool = (pool if cfg["cls"] == "Huge" else near_pool)(cfg["cls"], cfg.get("n", 16), cfg.get("pool", 7))
        self.known = {}  # (row, seed) -> forms
        self.pairs = {}  # (seed, pair) -> row
        self.lanes = {}  # lanes -> row

    def fid(self, *p):
        return (p[0], "hash", self.cfg["cls"]) + p[1:]

    def learn(self, row, seed, forms, why):
        h, p0, p1, hl, q0, q1, l0, l1, l2, by = forms
        lab = f"row {row} of {self.cfg['cls']}, seed {seed}, {why}"
        if not (int(h) == int(hl) and int(p0) == int(q0) and int(p1) == int(q1)):
            fail("forms-disagree", f"{lab}: hash {int(h)}, hash_pair {int(p0)},{int(p1)}, "
                                   f"with lanes: {int(hl)}, {int(q0)},{int(q1)}")
        if not (l0.tobytes() == l1.tobytes() == l2.tobytes()) or l0.dtype != np.uint32 or l0.ndim != 1:
            fail("lanes-disagree", f"{lab}: {l0.tolist()} / {l1.tolist()} / {l2.tolist()}")
        if h.dtype != np.uint32 or h.shape != () or by.dtype != np.uint8:
            fail("wrong-type", f"{lab}: {h.dtype}{h.shape} {by.dtype}")
        key = [x.tobytes() for x in forms]
        old = self.known.setdefault((row, seed), (key, why, [int(h), int(p0), int(p1)]))
        if old[0] != key:
            fail("hash-not-a-function", f"{lab}: hash, pair {int(h)}, {int(p0)}, {int(p1)}; "
                                        f"by way of '{old[1]}': {old[2]} (or another encoding)")
        a = self.pairs.setdefault((seed, int(p0), int(p1)), row)
        b = self.lanes.setdefault(l0.tobytes(), row)
        c = self.lanes.setdefault((by.tobytes(),), row)
        if a != row:
            fail("collision", f"{lab}: hash pair {int(p0)}, {int(p1)} equals that of row {a}")
        if b != row or c != row:
            fail("encoding-not-injective", f"{lab}: same lanes or bytes as row {b if b != row else c}")

    def many(self, rows, seed, res, why):
        res = pack(res)
        for k, row in enumerate(rows):
            self.learn(row, seed, [x[k] for x in res], why)

    def step(self, op):
        ctx, P = self.ctx, self.pool
        form, rows, seed = op["form"], [i % P.n for i in op["rows"]], SEEDS[op["seed"] % len(SEEDS)]
        row = rows[0]
        mode = op.get("mode", "api")
        n = len(rows)
        ctx.state(self.cfg["cls"], form, mode, row, seed)
        j = jnp.uint32(seed)
        if form in ("node", "crash"):
            from ..node import node

            env, hs = NODES[op["node"]]
            nd = node(op["node"], hs, env)
            if form == "crash":
                if op["late"]:
                    nd.post("hashes", cls=self.cfg["cls"], leaves=[x[:1] for x in P.leaves], seeds=[seed])
                nd.kill()
                ctx.faults["node_crash"] += 1
            ctx.ops["hash:node"] += 1
            ctx.steps += 1
            r = nd.call("hashes", cls=self.cfg["cls"], leaves=[x[rows] for x in P.leaves], seeds=[seed])
            if r.get("error"):
                fail("raised", f"in process '{op['node']}': {r['error']}")
            for row, f in zip(rows, r["hashes"]):
                self.learn(row, seed, f[0], f"process '{op['node']}'")
            ctx.faults["other_process"] += 1
            return
        x = P.take(row)
        if form == "intr":
            hit = ctx.interrupted(("hash",), lambda v: everything(v, seed), x, at=op["at"],
                                  exc={"K": KeyboardInterrupt, "M": MemoryError}[op["exc"]])
            ctx.extra["interrupted_hash"] += bool(hit)
            form = "api"
        if form in ("api", "jit", "ckpt", "host", "replace"):
            if form == "ckpt":
                x = ctx.restart(x)
            elif form == "host":
                x = jax.tree_util.tree_map(np.asarray, x)
            elif form == "replace":
                x = x.replace()
            m = mode if form == "api" else ("jit" if form == "jit" else "api")
            r = ctx.lib(self.fid("hash"), everything, x, j if m != "api" else seed, mode=m, seed=op["sched"])
            return self.learn(row, seed, pack(r), f"{form} {m}")
        if form == "default_seed":
            r = ctx.lib(self.fid("hash0"), lambda v: (v.hash(), v.hash_pair(), *v.hash_with_uint32ed(),
                                                      *v.hash_pair_with_uint32ed(), v.uint32ed, v.bytes), x)
            h, p, h2, l0, p2, l1, l2, by = r
            return self.learn(row, 0, pack((h, p, h2, p2, l0, l1, l2, by)), "default seed")
        if form == "seed_types":
            s = [np.uint32(seed), np.int32(seed), np.int64(seed), jnp.int32(seed), np.array(seed, np.uint32)][op["k"] % 5]
            r = ctx.lib(self.fid("hash"), everything, x, s)
            return self.learn(row, seed, pack(r), f"seed given as {type(s).__name__}")
        if form == "stack":
            from xtructure import numpy as xnp

            b = ctx.lib(self.fid("stack"), lambda *v: xnp.stack(list(v)), *[P.take(i) for i in rows])
        elif form == "set":
            ix = np.random.RandomState(op["k"]).permutation(2 * n)[:n]
            b = ctx.lib(self.fid("set", n), lambda v: P.cls.default((2 * n,)).at[jnp.asarray(ix)].set(v), P.take(rows))
            b = ctx.lib(self.fid("get", n), lambda v: v[jnp.asarray(ix)], b)
        else:
            b = P.take(rows)
        if form in ("slice", "set", "stack"):
            k = op["k"] % n
            y = ctx.lib(self.fid("row"), lambda v: v[k], b)
            r = ctx.lib(self.fid("hash"), everything, y, seed)
            self.learn(rows[k], seed, pack(r), f"row of a {form}")
        if form == "nested_vmap":
            if n % 2:
                b, rows, n = P.take(rows[:-1] or rows * 2), rows[:-1] or rows * 2, max(n - 1, 2)
            f = jax.vmap(jax.vmap(everything, (0, None)), (0, None))
            r = ctx.lib(self.fid("vv", n), lambda v, s: f(v.reshape((2, n // 2)), s), b, j, mode=mode, seed=op["sched"])
            r = jax.tree_util.tree_map(lambda a: a.reshape((n,) + a.shape[2:]), r)
        elif form == "map":
            r = ctx.lib(self.fid("map", n), lambda v, s: lax.map(lambda u: everything(u, s), v), b, j, mode="jit")
        else:
            r = ctx.lib(self.fid("vmap", n), jax.vmap(everything, (0, None)), b, j, mode=mode, seed=op["sched"])
        self.many(rows, seed, r, f"{form} {mode}")


def variants(tier):
    q = tier == "quick"
    cl = ["Nested", "Bits", "NestedArr", "F32", "Half", "WideU8", "IoBitsNest", "Packed", "I8Pair", "Bools", "BitsWide", "U32", "WideF32"]
    out = []
    for i, c in enumerate(cl):
        nodes = list(NODES) if not q else [list(NODES)[i % 4], list(NODES)[(i + 1) % 4]]
        out.append(({}, {"cls": c, "nodes": nodes}))
    out.append(({}, {"cls": "Huge", "nodes": ["nostream"], "n": 6}))
    out.append(({"XTRUCTURE_HASH_STREAM": "off"}, {"cls": "Huge", "nodes": [], "n": 6}))
    for c in ("Nested", "I8Pair") if q else cl:
        out.append(({"SIM_X64": "1"}, {"cls": c, "nodes": []}))
    for c in ("Bits", "WideU32") if q else cl:
        out.append(({"XTRUCTURE_HASH_STREAM": "on"}, {"cls": c, "nodes": ["nostream"]}))
        if not q:
            out.append(({}, {"cls": c, "nodes": list(NODES), "n": 60, "pool": 99}))
            out.append(({"SIM_BACKEND": "gpu"}, {"cls": c, "nodes": list(NODES)}))
    return out


class World:
    LEVEL = "exploration"
    TECHNIQUE = "deterministic simulation"
    RULE = "a state counts once per distinct (class, route, mode, row, seed) hashed"
    COMPONENTS = COMPONENTS
    ASSUMPTIONS = [
        "XTRUCTURE_HASH_AGG_MODE is 'raw' (the default) everywhere: 'packed' is a different encoding by design",
        "two different rows of the generated pools get different 64-bit hash pairs (checked on the unchanged tree; chance 2^-64 per pair)",
    ] + DEV_ASSUME

    def __init__(self, pid):
        self.ID = pid

    def jobs(self, tier, seed):
        return make_jobs(variants(tier), 30 if tier == "quick" else 150, seed, self.ID)

    def gen(self, cfg, seed):
        r = rng("hashing", seed)
        ops = []
        rows = [r.randrange(1 << 16) for _ in range(r.randint(1, 4))]
        rows += [i + 1 for i in rows if r.random() < .8]
        seeds = [r.randrange(7) for _ in range(2)]
        for _ in range(r.randint(6, 14)):
            form = r.choice(FORMS)
            k = r.random()
            if cfg["nodes"] and k < .3:
                form = "crash" if k < .012 else "node"
            n = r.choice([1, 2, 3, 6])
            ops.append({"form": form, "rows": [r.choice(rows) for _ in range(n)], "seed": r.choice(seeds),
                        "mode": r.choice(["api", "jit", "jit", "dev"]) if form in ("vmap", "api", "nested_vmap") else "api",
                        "k": r.randrange(1 << 16), "sched": r.randrange(1 << 32)})
            if form in ("node", "crash"):
                ops[-1].update(node=r.choice(cfg["nodes"]), late=r.random() < .5)
            if form == "intr":
                ops[-1].update(at=r.choice([1, 2, 3, 5, 8, 13, 21, 40]), exc=r.choice("KM"))
        return {"cfg": cfg, "seed": seed, "ops": ops}

    def run(self, case):
        ctx = Ctx(case)
        R = Run(ctx, case["cfg"])
        for op in case["ops"]:
            R.step(op)
        return ctx.result()


def make(pid):
    return World(pid)
