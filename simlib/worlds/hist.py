"""Histories of container operations against small reference models.

A run is a tree of versions: every operation takes one existing version of a container
and produces a new one, so old snapshots stay in use and are checked again at the end.
Each operation runs in one execution mode:

    api    the public method, as a user calls it
    jit    the public method inside the caller's own jax.jit
    dev    the program on the simulated device (simlib.device, simlib.kernels)
    scan   a whole sub-history fused into one lax.scan (jit or simulated device)
    vscan  two containers advanced in lock step under jax.vmap

Faults: checkpoint to bytes and restore, a call interrupted at a chosen line of the
library and then retried, and everything the simulated device does.
"""

from __future__ import annotations

import jax
import jax.numpy as jnp
import numpy as np
from jax import lax

from ..classes import CLASSES, Pool, colliding_pairs, tail_rows
from ..util import Skip, Violation, rng
from .base import Ctx, make_jobs, np_tree

L = 12  # length of one fused sub-history
_POOLS: dict = {}


def pool(cls, n=24, seed=7):
    k = (cls, n, seed)
    if k not in _POOLS:
        _POOLS[k] = Pool(cls, n, seed)
    return _POOLS[k]


def wild_pool(cls, n=24, seed=7):
    """A pool whose float rows also hold infinities, NaN and negative zero: for code that only moves values."""
    k = (cls, n, seed, "wild")
    if k not in _POOLS:
        p = pool(cls, n, seed)
        leaves = [np.array(x, copy=True) for x in p.leaves]
        r = rng("wild", *k)
        seen = {Pool.row_bytes(leaves, i) for i in range(p.n)}
        for i in range(p.n):
            row = [np.array(x[i], copy=True) for x in leaves]
            for x in row:
                if jnp.issubdtype(x.dtype, jnp.floating) and "float8" not in str(x.dtype) and r.random() < .4:
                    flat = x.reshape(-1)
                    for j in range(flat.size):
                        if r.random() < .6:
                            flat[j] = r.choice([np.inf, -np.inf, np.nan, -0.0])
            b = Pool.row_bytes([x[None] for x in row], 0)
            if b not in seen:
                seen.add(b)
                for x, y in zip(leaves, row):
                    x[i] = y
        _POOLS[k] = Pool(cls, p.n, 0, fixed=leaves)
    return _POOLS[k]


def fail(kind, *msg):
    raise Violation(kind, " ".join(str(m) for m in msg))


class Adapter:
    """One container kind with one configuration."""


    def __init__(self, cfg):
        self.cfg = cfg
        for k in ("PUSH", "POP", "SIZES"):
            if k in cfg:
                setattr(self, k, tuple(cfg[k]))
        self.tag = "%s-%s-%s" % (self.kind, cfg["cls"], "-".join(str(cfg.get(k)) for k in self.key))
        if cfg.get("collide"):
            leaves, self.collisions = colliding_pairs(CLASSES[cfg["cls"]], cfg["seed"], cfg["pool"])
            self.pool = Pool(cfg["cls"], cfg["pool"], 0, fixed=leaves)
        elif cfg.get("tail"):
            self.pool = Pool(cfg["cls"], cfg["pool"], 0, fixed=tail_rows(cfg["cls"], cfg["pool"], cfg["tail"]))
        else:
            self.pool = (pool if self.kind == "table" else wild_pool)(cfg["cls"], cfg.get("pool", 24))

    # to be provided: build(ctx), gen(r), apply(ctx, op, obj, model), observe(ctx, obj, model),
    #                 micro_gen(r), micro_legal(model, m), micro_xs(ms), micro_step(obj, x),
    #                 micro_check(ctx, ms, ys, obj, model) -> model, abstract(model)

    def fid(self, *parts):
        return (parts[0],) + (self.tag,) + tuple(parts[1:])

    def scan_fn(self):
        def f(obj, xs):
            return lax.scan(self.micro_step, obj, xs)

        return f

    def run_scan(self, ctx, op, objs, models):
        """Fused sub-histories; returns new (obj, model) pairs."""
        progs = [self.legalise(m, ms) for m, ms in zip(models, op["progs"])]
        if len(objs) == 1:
            mode = op["mode"] if op["mode"] in ("jit", "dev") else "jit"
            obj, ys = ctx.lib(self.fid("scan"), self.scan_fn(), objs[0], self.micro_xs(progs[0]),
                              mode=mode, seed=op["seed"])
            outs = [(obj, ys)]
        else:
            both = jax.tree_util.tree_map(lambda *x: jnp.stack(x), *objs)
            xs = jax.tree_util.tree_map(lambda *x: jnp.stack(x), *[self.micro_xs(p) for p in progs])
            obj, ys = ctx.lib(self.fid("vscan", len(objs)), jax.vmap(self.scan_fn()), both, xs, mode="jit")
            outs = [(jax.tree_util.tree_map(lambda x, i=i: x[i], obj),
                     jax.tree_util.tree_map(lambda x, i=i: x[i], ys)) for i in range(len(objs))]
        ctx.steps += L * len(objs)
        res = []
        for (o, ys), p, m in zip(outs, progs, models):
            res.append((o, self.micro_check(ctx, p, jax.tree_util.tree_map(np.asarray, ys), o, m)))
        return res

    def legalise(self, model, ms):
        raise NotImplementedError


# --------------------------------------------------------------------------- stack/queue


class StackA(Adapter):
    kind = "stack"
    key = ("cap",)
    PUSH = (1, 2, 3, 5)
    POP = (1, 2, 3, 5)

    def build(self, ctx):
        from xtructure import Stack

        cap, cls = self.cfg["cap"], self.pool.cls
        return ctx.lib(self.fid("build"), lambda: Stack.build(cap, cls), mode="api"), ()

    def abstract(self, m):
        return m

    def _content(self, m):
        return m

    # -- generation
    def gen(self, r):
        k = r.random()
        if k < 0.42:
            n = 0 if r.random() < .05 else self.PUSH[r.randrange(4)]
            return {"op": "push", "ids": [r.randrange(self.pool.n) for _ in range(n)], "single": n == 1 and r.random() < .6}
        if k < 0.68:
            return {"op": "pop", "n": 0 if r.random() < .04 else self.POP[r.randrange(4)]}
        if k < 0.82:
            return {"op": "peek", "n": 0 if r.random() < .04 else self.POP[r.randrange(4)]}
        return {"op": "index", "i": [r.randrange(1 << 16) for _ in range(4)]}

    def _items(self, op):
        return self.pool.take(op["ids"][0] if op.get("single") else op["ids"])

    def apply(self, ctx, op, obj, m):
        k, mode, seed = op["op"], op["mode"], op["seed"]
        cap = self.cfg["cap"]
        if k == "push":
            if len(m) + len(op["ids"]) > cap:
                return None
            new = ctx.lib(self.fid("push"), lambda s, x: s.push(x), obj, self._items(op), mode=mode, seed=seed)
            return new, m + tuple(op["ids"])
        if k == "pop":
            n = op["n"]
            if n > len(m):
                return None
            new, out = ctx.lib(self.fid("pop", n), lambda s: s.pop(n), obj, mode=mode, seed=seed)
            self._expect(out, m[len(m) - n:], n, "pop")
            return new, m[:len(m) - n]
        if k == "peek":
            n = op["n"]
            if n > len(m):
                return None
            out = ctx.lib(self.fid("peek", n), lambda s: s.peek(n), obj, mode=mode, seed=seed)
            self._expect(out, m[len(m) - n:], n, "peek")
            return obj, m
        if k == "index":
            if not m:
                return None
            ix = [i % len(m) for i in op["i"]]
            out = ctx.lib(self.fid("index"), lambda s, i: s[i], obj, jnp.array(ix), mode=mode, seed=seed)
            self._expect(out, [m[i] for i in ix], 4, "index")
            return obj, m
        return None

    def _expect(self, out, ids, n, what):
        got = self.pool.ids(out)
        want = ids[0] if n == 1 else list(ids)
        if got != want:
            fail("wrong-value", f"{self.kind}.{what}: got {got}, expected {want} (-1: value never stored)")

    def observe(self, ctx, obj, m):
        size = int(obj.size)
        if size != len(m):
            fail("wrong-size", f"{self.kind}: size {size}, expected {len(m)}")
        if m:
            ix = np.minimum(np.arange(self.cfg["cap"]), len(m) - 1)
            out = ctx.lib(self.fid("index"), lambda s, i: s[i], obj, jnp.asarray(ix), mode="jit")
            got = self.pool.ids(out)[: len(m)]
            if got != list(m):
                fail("wrong-content", f"{self.kind}: holds {got}, expected {list(m)}")

    # -- fused: codes 0 noop, 1 push one, 2 pop one, 3 push two, 4 peek two
    def micro_gen(self, r):
        return [r.choice([1, 1, 1, 2, 2, 3, 4, 0]), r.randrange(self.pool.n), r.randrange(self.pool.n)]

    def legalise(self, m, ms):
        out, n = [], len(m)
        room = self.cfg["cap"] - n
        for c, a, b in ms[:L]:
            d = {0: 0, 1: 1, 2: -1, 3: 2, 4: 0}[c]
            if n + d < 0 or d > room or (c == 4 and n < 2):
                c, d = 0, 0
            n, room = n + d, room - d
            out.append((c, a, b))
        return out + [(0, 0, 0)] * (L - len(out))

    def micro_xs(self, ms):
        return (jnp.array([c for c, _, _ in ms], jnp.int32),
                self.pool.take([i for _, a, b in ms for i in (a, b)]).reshape((L, 2)))

    def micro_step(self, s, x):
        c, two = x
        z = self.pool.cls.default((2,))
        one = two[0]

        def pop(s):
            s, v = s.pop(1)
            return s, z.at[0].set(v)

        s, out = lax.switch(c, [lambda s: (s, z), lambda s: (s.push(one), z), pop,
                                lambda s: (s.push(two), z), lambda s: (s, s.peek(2))], s)
        return s, (out, s.size)

    def micro_check(self, ctx, ms, ys, obj, m):
        vals, sizes = ys
        ids = self.pool.ids(vals.reshape((2 * L,)) if hasattr(vals, "reshape") else vals)
        for t, (c, a, b) in enumerate(ms):
            got = ids[2 * t: 2 * t + 2]
            m = self._micro(t, c, a, b, m, got)
            if int(sizes[t]) != len(m):
                fail("wrong-size", f"{self.kind} fused step {t}: size {int(sizes[t])}, expected {len(m)}")
        return m

    def _micro(self, t, c, a, b, m, got):
        if c == 1:
            return m + (a,)
        if c == 3:
            return m + (a, b)
        if c == 2:
            if got[0] != m[-1]:
                fail("wrong-value", f"stack fused step {t}: pop gave {got[0]}, expected {m[-1]}")
            return m[:-1]
        if c == 4 and got != list(m[-2:]):
            fail("wrong-value", f"stack fused step {t}: peek gave {got}, expected {m[-2:]}")
        return m


class QueueA(StackA):
    kind = "queue"

    # model: (content tuple, slots used since the last clear)
    def build(self, ctx):
        from xtructure import Queue

        cap, cls = self.cfg["cap"], self.pool.cls
        return ctx.lib(self.fid("build"), lambda: Queue.build(cap, cls), mode="api"), ((), 0)

    def gen(self, r):
        op = super().gen(r)
        if r.random() < 0.06:
            return {"op": "clear"}
        return op

    def apply(self, ctx, op, obj, m):
        k, mode, seed = op["op"], op["mode"], op["seed"]
        q, used = m
        if k == "push":
            n = len(op["ids"])
            if used + n > self.cfg["cap"]:
                return None
            new = ctx.lib(self.fid("enqueue"), lambda s, x: s.enqueue(x), obj, self._items(op), mode=mode, seed=seed)
            return new, (q + tuple(op["ids"]), used + n)
        if k in ("pop", "peek"):
            n = op["n"]
            if n > len(q):
                return None
            if k == "pop":
                new, out = ctx.lib(self.fid("dequeue", n), lambda s: s.dequeue(n), obj, mode=mode, seed=seed)
                self._expect(out, q[:n], n, "dequeue")
                return new, (q[n:], used)
            out = ctx.lib(self.fid("qpeek", n), lambda s: s.peek(n), obj, mode=mode, seed=seed)
            self._expect(out, q[:n], n, "peek")
            return obj, m
        if k == "index":
            if not q:
                return None
            ix = [i % len(q) for i in op["i"]]
            out = ctx.lib(self.fid("qindex"), lambda s, i: s[i], obj, jnp.array(ix), mode=mode, seed=seed)
            self._expect(out, [q[i] for i in ix], 4, "index")
            return obj, m
        if k == "clear":
            return ctx.lib(self.fid("clear"), lambda s: s.clear(), obj, mode=mode, seed=seed), ((), 0)
        return None

    def observe(self, ctx, obj, m):
        StackA.observe(self, ctx, obj, m[0])

    def legalise(self, m, ms):
        q, used = m
        out, n, room = [], len(q), self.cfg["cap"] - used
        for c, a, b in ms[:L]:
            d = {0: 0, 1: 1, 2: -1, 3: 2, 4: 0, 5: 0}[c]
            if n + d < 0 or d > room or (c == 4 and n < 2):
                c, d = 0, 0
            n += d
            room -= max(d, 0)
            if c == 5:
                n, room = 0, self.cfg["cap"]
            out.append((c, a, b))
        return out + [(0, 0, 0)] * (L - len(out))

    def micro_gen(self, r):
        m = super().micro_gen(r)
        if r.random() < 0.05:
            m[0] = 5
        return m

    def micro_step(self, s, x):
        c, two = x
        z = self.pool.cls.default((2,))
        one = two[0]

        def pop(s):
            s, v = s.dequeue(1)
            return s, z.at[0].set(v)

        s, out = lax.switch(c, [lambda s: (s, z), lambda s: (s.enqueue(one), z), pop,
                                lambda s: (s.enqueue(two), z), lambda s: (s, s.peek(2)),
                                lambda s: (s.clear(), z)], s)
        return s, (out, s.size)

    def micro_check(self, ctx, ms, ys, obj, m):
        q, used = m
        for c, *_ in ms:
            used = 0 if c == 5 else used + {1: 1, 3: 2}.get(c, 0)
        return StackA.micro_check(self, ctx, ms, ys, obj, q), used

    def _micro(self, t, c, a, b, m, got):
        if c in (1, 3):
            return m + ((a,) if c == 1 else (a, b))
        if c == 2:
            if got[0] != m[0]:
                fail("wrong-value", f"queue fused step {t}: dequeue gave {got[0]}, expected {m[0]}")
            return m[1:]
        if c == 4 and got != list(m[:2]):
            fail("wrong-value", f"queue fused step {t}: peek gave {got}, expected {m[:2]}")
        return () if c == 5 else m


# --------------------------------------------------------------------------- hash table


def representatives(ids, filled, ukey):
    """index -> index of its representative, for filled rows."""
    best = {}
    for i, (v, f) in enumerate(zip(ids, filled)):
        if not f:
            continue
        k = (ukey[i] if ukey is not None else 0, i)
        if v not in best or k < best[v]:
            best[v] = k
    return {i: best[v][1] for i, (v, f) in enumerate(zip(ids, filled)) if f}


class TableA(Adapter):
    kind = "table"
    key = ("cap", "bucket", "mult", "probes", "seed", "pool")
    SIZES = (1, 3, 5, 8, 13, 16, 21)

    def __init__(self, cfg):
        super().__init__(cfg)
        # A few call shapes per system: every shape is a separate compilation.
        r = rng("forms", self.tag, cfg.get("form", 0))
        big = r.choice(self.SIZES[3:])
        small = r.choice(self.SIZES[:4])
        self.forms = [(big, True, True, r.choice("fiu")), (small, r.random() < .5, r.random() < .5, r.choice("fiu"))]
        if cfg.get("forms", 2) > 2:
            self.forms += [(big, False, True, "f"), (big, True, False, "f"), (r.choice(self.SIZES), False, False, "f")]
        self.look = [(r.choice(self.SIZES[2:5]), r.random() < .6)]

    def build(self, ctx):
        from xtructure import HashTable

        c, cls = self.cfg, self.pool.cls
        t = ctx.lib(self.fid("build"), lambda: HashTable.build(
            cls, c["seed"], c["cap"], bucket_size=c["bucket"], hash_size_multiplier=c["mult"],
            max_probes=c.get("probes")), mode="api")
        return t, {}

    def abstract(self, m):
        return tuple(sorted(m.items()))

    def _must_fit(self, m, new):
        """Does the library promise that `new` more distinct values fit?"""
        return self.cfg.get("probes") is None and len(m) + new <= self.cfg["cap"]

    def gen(self, r):
        k = r.random()
        if k < 0.6:
            n, has_f, has_u, kd = self.forms[r.randrange(len(self.forms))]
            hot = r.sample(range(self.pool.n), min(self.pool.n, max(1, r.choice([1, 2, n, n, self.pool.n]))))
            op = {"op": "pinsert", "ids": [r.choice(hot) for _ in range(n)]}
            if n >= self.pool.n and r.random() < .6:  # every value there is, in one batch
                op["ids"][: self.pool.n] = r.sample(range(self.pool.n), self.pool.n)
            if has_f:
                p = r.choice([1.0, .8, .8, .15, 0.0 if r.random() < .2 else .5])
                op["filled"] = [int(r.random() < p) for _ in range(n)]
            if has_u:
                base = r.choice({"f": [0, 0, 0, -5, 1 << 20, (1 << 24) - 9], "i": [0, 0, -5, 1 << 24, 2 - 2**31, 2**31 - 8],
                                 "u": [2, 2, 1 << 24, 2**31 - 1, 2**32 - 8]}[kd])
                unit = r.choice([1, 1, .5, 2**-18]) if kd == "f" and abs(base) < 6 else 1
                op["ukey"] = [base + unit * r.choice([-2, 0, 0, 1, 1, 3, 7]) for _ in range(n)]
                op["kd"] = kd
            return op
        if k < 0.7:
            return {"op": "insert", "id": r.randrange(self.pool.n)}
        if k < 0.8:
            return {"op": "lookup", "id": r.randrange(self.pool.n)}
        n, has_f = self.look[r.randrange(len(self.look))]
        op = {"op": "plookup", "ids": [r.randrange(self.pool.n) for _ in range(n)]}
        if has_f:
            op["filled"] = [int(r.random() < 0.6) for _ in range(n)]
        return op

    def apply(self, ctx, op, obj, m):
        k, mode, seed = op["op"], op["mode"], op["seed"]
        if k == "pinsert":
            ids = op["ids"]
            filled = op.get("filled")
            uk = op.get("ukey")
            args = [obj, self.pool.take(ids)]
            has_f, has_u = filled is not None, uk is not None
            if has_f:
                args.append(jnp.array(filled, jnp.bool_))
            if has_u:
                args.append(jnp.array(uk, {"f": jnp.float32, "u": jnp.uint32}.get(op.get("kd"), jnp.int32)))

            def f(t, x, *rest):
                rest = list(rest)
                return t.parallel_insert(x, rest.pop(0) if has_f else None, rest.pop(0) if has_u else None)

            t, ins, uniq, idx = ctx.lib(self.fid("pinsert", has_f, has_u), f, *args, mode=mode, seed=seed)
            return t, self.check_insert(ctx, m, ids, filled or [1] * len(ids), uk, ins, uniq, idx, t)
        if k == "insert":
            i = op["id"]
            t, ins, idx = ctx.lib(self.fid("insert"), lambda t, x: t.insert(x), obj, self.pool.take(i), mode=mode, seed=seed)
            new = i not in m
            ins, ix = bool(ins), int(np.asarray(idx.index))
            if ins and not new:
                fail("wrong-inserted", f"insert of stored value {i} reported a new insertion")
            if not ins and new and self._must_fit(m, 1):
                fail("lost-insert", f"insert of value {i} failed with {len(m)} of {self.cfg['cap']} stored")
            m2 = dict(m)
            if ins:
                m2[i] = ix
            elif not new and ix != m[i]:
                fail("moved", f"insert of stored value {i}: index {ix}, was {m[i]}")
            self._sane(m2)
            if int(t.size) != len(m2):
                fail("wrong-size", f"table: size {int(t.size)}, expected {len(m2)}")
            return t, m2
        if k == "lookup":
            i = op["id"]
            idx, found = ctx.lib(self.fid("lookup"), lambda t, x: t.lookup(x), obj, self.pool.take(i), mode=mode, seed=seed)
            self._check_lookup(m, [i], [1], [int(np.asarray(idx.index))], [bool(found)])
            return obj, m
        if k == "plookup":
            ids, filled = op["ids"], op.get("filled")
            if filled is None:
                idx, found = ctx.lib(self.fid("plookup", 0), lambda t, x: t.lookup_parallel(x), obj,
                                     self.pool.take(ids), mode=mode, seed=seed)
            else:
                idx, found = ctx.lib(self.fid("plookup", 1), lambda t, x, f: t.lookup_parallel(x, f), obj,
                                     self.pool.take(ids), jnp.array(filled, jnp.bool_), mode=mode, seed=seed)
            self._check_lookup(m, ids, filled or [1] * len(ids), np.asarray(idx.index).tolist(),
                               np.asarray(found).tolist())
            return obj, m
        return None

    def _check_lookup(self, m, ids, filled, idx, found):
        for j, (i, f) in enumerate(zip(ids, filled)):
            if not f:
                if found[j]:
                    fail("phantom", f"lookup row {j} is not filled but reported found")
                continue
            if found[j] != (i in m):
                fail("wrong-found", f"lookup of value {i}: found={found[j]}, expected {i in m}")
            if i in m and idx[j] != m[i]:
                fail("moved", f"lookup of value {i}: index {idx[j]}, was {m[i]}")

    def _sane(self, m):
        if len(set(m.values())) != len(m):
            fail("shared-slot", f"two values share a slot: {m}")

    def check_insert(self, ctx, m, ids, filled, uk, ins, uniq, idx, t=None):
        ins, uniq = np.asarray(ins).tolist(), np.asarray(uniq).tolist()
        idx = np.asarray(idx.index).tolist()
        rep = representatives(ids, filled, uk)
        fresh = len({ids[i] for i in rep} - set(m))
        must = self._must_fit(m, fresh)
        m2 = dict(m)
        for j in range(len(ids)):
            if j not in rep:
                if ins[j] or uniq[j]:
                    fail("phantom", f"insert row {j} is not filled but inserted={ins[j]} unique={uniq[j]}")
                continue
            is_rep = rep[j] == j
            if uniq[j] != is_rep:
                fail("wrong-unique", f"insert row {j} (value {ids[j]}): unique={uniq[j]}, representative is row {rep[j]}; ids={ids} filled={filled} key={uk}")
            if ins[j] and (not is_rep or ids[j] in m):
                fail("wrong-inserted", f"insert row {j} (value {ids[j]}) reported inserted; representative row {rep[j]}, already stored={ids[j] in m}")
            if ins[j]:
                m2[ids[j]] = idx[j]
        for j in rep:
            v = ids[j]
            if v not in m2:
                if must:
                    fail("lost-insert", f"value {v} not inserted with {len(m)}+{fresh} of {self.cfg['cap']} stored")
            elif idx[j] != m2[v]:
                fail("wrong-index", f"insert row {j} (value {v}): index {idx[j]}, value lives at {m2[v]}")
        self._sane(m2)
        if t is not None and int(t.size) != len(m2):
            fail("wrong-size", f"table: size {int(t.size)}, expected {len(m2)}")
        return m2

    def observe(self, ctx, obj, m):
        if int(obj.size) != len(m):
            fail("wrong-size", f"table: size {int(obj.size)}, expected {len(m)}")
        n = self.pool.n
        idx, found = ctx.lib(self.fid("plookup", 0), lambda t, x: t.lookup_parallel(x), obj,
                             self.pool.take(range(n)), mode=self.obs_mode(), seed=3)
        self._check_lookup(m, list(range(n)), [1] * n, np.asarray(idx.index).tolist(), np.asarray(found).tolist())
        if m:
            from xtructure.hashtable import HashIdx

            items = sorted(m.items())
            ix = [items[k % len(items)][1] for k in range(n)]
            out = ctx.lib(self.fid("getitem"), lambda t, i: t[i], obj,
                          HashIdx(index=jnp.array(ix, jnp.uint32)), mode=self.obs_mode(), seed=4)
            got = self.pool.ids(out)[: len(items)]
            if got != [i for i, _ in items][:n]:
                fail("wrong-content", f"table slots hold {got}, expected {[i for i, _ in items]}")

    def obs_mode(self):
        return "jit"

    # -- fused: codes 0 noop, 1 insert batch of 4, 2 lookup batch of 4, 3 insert one
    def micro_gen(self, r):
        return [r.choice([1, 1, 2, 3, 0]), [r.randrange(self.pool.n) for _ in range(4)],
                [int(r.random() < .8) for _ in range(4)], [r.choice([0, 1, 1, 2]) for _ in range(4)]]

    def legalise(self, m, ms):
        return list(ms[:L]) + [[0, [0] * 4, [0] * 4, [0] * 4]] * (L - len(ms[:L]))

    def micro_xs(self, ms):
        return (jnp.array([m[0] for m in ms], jnp.int32),
                self.pool.take([i for m in ms for i in m[1]]).reshape((L, 4)),
                jnp.array([m[2] for m in ms], jnp.bool_), jnp.array([m[3] for m in ms], jnp.float32))

    def micro_step(self, t, x):
        c, vals, filled, key = x
        z = jnp.zeros((4,), jnp.bool_)
        zi = jnp.zeros((4,), jnp.uint32)

        def ins(t):
            t, i, u, idx = t.parallel_insert(vals, filled, key)
            return t, i, u, idx.index

        def look(t):
            idx, f = t.lookup_parallel(vals, filled)
            return t, f, z, idx.index

        def one(t):
            t, i, idx = t.insert(vals[0])
            return t, z.at[0].set(i), z, zi.at[0].set(idx.index)

        t, a, b, idx = lax.switch(c, [lambda t: (t, z, z, zi), ins, look, one], t)
        return t, (a, b, idx, t.size)

    def micro_check(self, ctx, ms, ys, obj, m):
        A, B, IX, SZ = ys

        class I:  # noqa: E742
            pass

        for s, (c, ids, filled, key) in enumerate(ms):
            if c == 1:
                idx = I()
                idx.index = IX[s]
                m = self.check_insert(ctx, m, ids, filled, key, A[s], B[s], idx)
            elif c == 2:
                self._check_lookup(m, ids, filled, IX[s].tolist(), A[s].tolist())
            elif c == 3:
                i, m2 = ids[0], dict(m)
                if A[s][0] and i in m:
                    fail("wrong-inserted", f"fused insert of stored value {i} reported a new insertion")
                if A[s][0]:
                    m2[i] = int(IX[s][0])
                elif i not in m and self._must_fit(m, 1):
                    fail("lost-insert", f"fused insert of value {i} failed")
                elif i in m and int(IX[s][0]) != m[i]:
                    fail("moved", f"fused insert of stored value {i}: index {int(IX[s][0])}, was {m[i]}")
                m = m2
            self._sane(m)
            if int(SZ[s]) != len(m):
                fail("wrong-size", f"table fused step {s}: size {int(SZ[s])}, expected {len(m)}")
        return m


# --------------------------------------------------------------------------- heap


class HeapA(Adapter):
    kind = "heap"
    key = ("cap", "batch", "kd", "pool")

    def __init__(self, cfg):
        super().__init__(cfg)
        self.B = cfg["batch"]
        self.kd = jnp.dtype({"f16": jnp.float16, "f32": jnp.float32, "bf16": jnp.bfloat16}[cfg["kd"]])
        self.real_cap = -(-cfg["cap"] // self.B) * self.B

    def build(self, ctx):
        from xtructure import BGPQ

        c, cls, kd = self.cfg, self.pool.cls, self.kd
        return ctx.lib(self.fid("build"), lambda: BGPQ.build(c["cap"], c["batch"], cls, kd), mode="api"), ()

    def abstract(self, m):
        return m

    KEYS = tuple(x / 4 for x in range(-8, 24))

    # Neighbours that a narrower key type would merge, and the ends of the range.
    FINE = {"f32": tuple(1 + k * 2.0**-23 for k in range(6)) + (3e38, -3e38, 1e-30, -1e-30, 16777214.0, 16777215.0, 16777216.0),
            "f16": tuple(1 + k * 2.0**-10 for k in range(6)) + (65504.0, -65504.0, 6.2e-5, 2046.0, 2047.0, 2048.0),
            "bf16": tuple(1 + k * 2.0**-7 for k in range(6)) + (3e38, -3e38, 1e-30, 254.0, 255.0, 256.0)}

    def _key(self, r):
        if r.random() < .15:
            return r.choice(self.FINE[self.cfg["kd"]])
        return r.choice(self.KEYS) if r.random() < .5 else r.choice((0.0, 1.0, -1.0, 2.5, 60000.0, -60000.0))

    def _norm(self, k):
        return float(np.asarray(jnp.asarray(k, self.kd), np.float64))

    def _sizes(self):
        return sorted({1, self.B - 1 or 1, self.B})

    def gen(self, r):
        if r.random() < self.cfg.get("p_insert", 0.62):
            sz = self._sizes()
            n = sz[r.randrange(len(sz))] if r.random() < .6 else self.B
            ties = r.random() < 0.3
            k0 = self._key(r)
            return {"op": "insert", "keys": [k0 if ties else self._key(r) for _ in range(n)],
                    "ids": [r.randrange(self.pool.n) for _ in range(n)]}
        return {"op": "delete"}

    def _insert_fn(self, pad_static):
        B = self.B

        def f(h, k, v):
            kk, vv = (type(h).make_batched(k, v, B) if pad_static else h.make_batched_like(k, v))
            return h.insert(kk, vv)

        return f

    def apply(self, ctx, op, obj, m):
        mode, seed = op["mode"], op["seed"]
        if op["op"] == "insert":
            n = len(op["ids"])
            over = len(m) + n > self.real_cap
            if over and not self.cfg.get("overflow"):
                return None
            keys = [self._norm(k) for k in op["keys"]]
            st = bool(seed & 1)
            new = ctx.lib(self.fid("hinsert", st), self._insert_fn(st), obj, jnp.array(keys, self.kd),
                          self.pool.take(op["ids"]), mode=mode, seed=seed)
            m2 = tuple(sorted(m + tuple(zip(keys, op["ids"]))))
            if over:
                m2 = self._overflow(ctx, new, m2, n)
            return new, m2
        if op["op"] == "delete":
            new, k, v = ctx.lib(self.fid("delete"), lambda h: h.delete_mins(), obj, mode=mode, seed=seed)
            return new, self._deleted(m, np.asarray(k), v, "delete_mins")
        return None

    def _deleted(self, m, k, v, what):
        B = self.B
        k = np.asarray(k, np.float64)
        want = [x for x, _ in m[:B]]
        got = sorted(x for x in k.tolist() if np.isfinite(x))
        if got != want or len(k) != B:
            fail("wrong-keys", f"heap.{what}: keys {k.tolist()}, expected {want} then inf (content {m[:2 * B]})")
        if any(a > b for a, b in zip(k.tolist(), k.tolist()[1:])):
            fail("unsorted", f"heap.{what}: keys {k.tolist()}")
        ids = self.pool.ids(v)
        left = list(m)
        for x, i in zip(k.tolist(), ids):
            if np.isfinite(x):
                if (x, i) not in left:
                    fail("wrong-pair", f"heap.{what}: key {x} came with value {i}; stored with that key: "
                                       f"{sorted(b for a, b in m if a == x)}")
                left.remove((x, i))
        return tuple(left)

    def _overflow(self, ctx, obj, union, n):
        ctx.faults["heap_overflow"] += 1
        got = self._drain(ctx, obj)
        left = list(union)
        for p in got:
            if p not in left:
                fail("wrong-pair", f"heap after overflow holds {p}, which is not stored that often (content {union})")
            left.remove(p)
        if len(left) > self.B:
            fail("over-evicted", f"one insert of {n} removed {len(left)} elements")
        if len(got) < self.real_cap:
            fail("over-evicted", f"heap holds {len(got)} of {self.real_cap} after evicting {left}")
        kept = sorted(x for x, _ in got)
        if kept[: self.B] != [x for x, _ in union[: self.B]]:
            fail("evicted-min", f"overflow lost one of the smallest keys: kept {kept[:self.B]}, stored {union[:self.B]}")
        return tuple(sorted(got))

    def _drain(self, ctx, obj):
        n = self.real_cap // self.B + 3

        def f(h):
            def step(h, _):
                h, k, v = h.delete_mins()
                return h, (k, v, h.size)

            return lax.scan(step, h, None, length=n)

        h, (k, v, size) = ctx.lib(self.fid("drain"), f, obj, mode=self.obs_mode(), seed=5)
        k = np.asarray(k, np.float64).reshape(-1)
        fin = np.isfinite(k)
        if np.any(fin[1:] & ~fin[:-1]) or np.any(k[fin][1:] < k[fin][:-1]):
            fail("unsorted", f"heap drains as {k.tolist()}")
        ids = self.pool.ids(jax.tree_util.tree_map(lambda x: x.reshape((-1,) + x.shape[2:]), v))
        return list(zip(k[fin].tolist(), [i for i, f in zip(ids, fin) if f]))

    def obs_mode(self):
        import os

        return "dev" if os.environ.get("SIM_BACKEND") == "gpu" else "jit"

    def observe(self, ctx, obj, m):
        size = int(obj.size)
        if size != len(m):
            fail("wrong-size", f"heap: size {size}, expected {len(m)}")
        got = self._drain(ctx, obj)
        if sorted(got) != sorted(m):
            fail("wrong-content", f"heap drains {sorted(got)}, expected {sorted(m)}")

    # -- fused: 0 noop, 1 insert, 2 delete
    def micro_gen(self, r):
        n = r.randint(1, self.B)
        return [r.choice([1, 1, 1, 2, 2, 0]), [self._key(r) for _ in range(n)], [r.randrange(self.pool.n) for _ in range(n)]]

    def legalise(self, m, ms):
        n, out = len(m), []
        for c, k, i in ms[:L]:
            if c == 1:
                if n + len(k) > self.real_cap:
                    c = 2
                else:
                    n += len(k)
            if c == 2:
                n = max(0, n - self.B)
            out.append((c, [self._norm(x) for x in k], i))
        return out + [(0, [0.0], [0])] * (L - len(out))

    def micro_xs(self, ms):
        K = np.full((L, self.B), np.inf)
        I = np.zeros((L, self.B), int)  # noqa: E741
        for s, (c, k, i) in enumerate(ms):
            K[s, : len(k)] = k
            I[s, : len(i)] = i
        return (jnp.array([m[0] for m in ms], jnp.int32), jnp.asarray(K, self.kd),
                self.pool.take(I.reshape(-1).tolist()).reshape((L, self.B)))

    def micro_step(self, h, x):
        c, k, v = x
        z = (jnp.full((self.B,), jnp.inf, self.kd), self.pool.cls.default((self.B,)))

        def dele(h):
            h, a, b = h.delete_mins()
            return h, (a, b)

        h, out = lax.switch(c, [lambda h: (h, z), lambda h: (h.insert(k, v), z), dele], h)
        return h, (out, h.size)

    def micro_check(self, ctx, ms, ys, obj, m):
        (K, V), SZ = ys
        for s, (c, k, i) in enumerate(ms):
            if c == 1:
                m = tuple(sorted(m + tuple(zip(k, i))))
            elif c == 2:
                m = self._deleted(m, K[s], jax.tree_util.tree_map(lambda x: x[s], V), f"delete_mins (fused step {s})")
            if int(SZ[s]) != len(m):
                fail("wrong-size", f"heap fused step {s}: size {int(SZ[s])}, expected {len(m)}")
        return m


ADAPTERS = {"stack": StackA, "queue": QueueA, "table": TableA, "heap": HeapA}
_AD: dict = {}


def adapter(cfg):
    k = repr(sorted(cfg.items()))
    if k not in _AD:
        _AD[k] = ADAPTERS[cfg["kind"]](cfg)
    return _AD[k]


# --------------------------------------------------------------------------- the runs


def gen_case(cfg, seed):
    r = rng("hist", seed)
    ads = [adapter(a) for a in cfg["systems"]]
    modes, weights = zip(*cfg["modes"])
    ops = []
    for _ in range(r.randint(cfg.get("min_ops", 12), cfg.get("max_ops", 30))):
        s = r.randrange(len(ads))
        a = ads[s]
        mode = r.choices(modes, weights)[0]
        # Mostly continue the newest version of this system, sometimes branch from an old one.
        src = -1 if r.random() < cfg.get("p_tip", 0.85) else r.randrange(1 << 16)
        if mode == "ckpt":
            op = {"op": "ckpt"}
        elif mode in ("scan", "dscan"):
            op = {"op": "scan", "progs": [[a.micro_gen(r) for _ in range(L)]]}
        elif mode == "vscan":
            op = {"op": "scan", "progs": [[a.micro_gen(r) for _ in range(L)] for _ in range(2)],
                  "src2": r.randrange(1 << 16)}
        else:
            op = a.gen(r)
        if mode == "intr":
            op["at"] = r.choice([1, 2, 3, 5, 8, 13, 21, 40, 80, 160, 400])
            op["exc"] = r.choice(["KeyboardInterrupt", "MemoryError"])
        op.update(sys=s, src=src, seed=r.randrange(1 << 32),
                  mode={"ckpt": "api", "scan": "jit", "vscan": "jit", "dscan": "dev"}.get(mode, mode))
        ops.append(op)
    return {"cfg": cfg, "seed": seed, "ops": ops}


def run_case(case):
    cfg = case["cfg"]
    ctx = Ctx(case)
    ads = [adapter(a) for a in cfg["systems"]]
    vers = [[a.build(ctx)] for a in ads]
    tip = [0 for _ in ads]
    frozen = [[None] for _ in ads]  # bytes of each version when it was created
    for s, a in enumerate(ads):
        frozen[s][0] = [x.tobytes() for x in np_tree(vers[s][0][0])]

    def add(s, obj, model):
        vers[s].append((obj, model))
        frozen[s].append([x.tobytes() for x in np_tree(obj)])
        tip[s] = len(vers[s]) - 1
        ctx.state(s, ads[s].tag, ads[s].abstract(model))

    for op in case["ops"]:
        s = op["sys"] % len(ads)
        a = ads[s]
        i = tip[s] if op["src"] < 0 else op["src"] % len(vers[s])
        obj, model = vers[s][i]
        if op["op"] == "ckpt":
            add(s, ctx.restart(obj), model)
            continue
        if op["op"] == "scan":
            objs, models = [obj], [model]
            if "src2" in op:
                o2, m2 = vers[s][op["src2"] % len(vers[s])]
                objs.append(o2)
                models.append(m2)
            for o, m in a.run_scan(ctx, op, objs, models):
                add(s, o, m)
            continue
        if op["mode"] == "intr":
            exc = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[op["exc"]]
            sub = dict(op, mode="api")
            hit = ctx.interrupted((op["op"],), lambda: a.apply(ctx, sub, obj, model), at=op["at"], exc=exc)
            if [x.tobytes() for x in np_tree(obj)] != frozen[s][i]:
                fail("mutated", f"an interrupted {op['op']} changed the {a.kind} it was called on")
            op = sub  # the caller retries
            del hit
        res = a.apply(ctx, op, obj, model)
        if res is None:
            ctx.extra["illegal_here"] += 1
            continue
        if res[0] is not obj:
            add(s, *res)
    # Every version ever created still is what it was.
    r = rng("final", case["seed"])
    for s, a in enumerate(ads):
        n = len(vers[s])
        for i in range(n):
            if [x.tobytes() for x in np_tree(vers[s][i][0])] != frozen[s][i]:
                fail("mutated", f"version {i} of a {a.kind} changed after it was created")
        look = {n - 1, *(r.randrange(n) for _ in range(cfg.get("recheck", 3)))}
        for i in sorted(look):
            a.observe(ctx, *vers[s][i])
            ctx.extra["versions_rechecked"] += 1
    return ctx.result()
