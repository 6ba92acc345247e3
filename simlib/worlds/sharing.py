"""Shared classes and instances under preemption (P21) and under failing calls (P22).

Every run defines its value classes anew, so that everything the library builds lazily or
caches (per class and per instance) is built during the run.  A catalogue of library calls is first
executed undisturbed on a twin class; the disturbed execution must return the same results.

P21: two or three real threads work on the same class, the same instances and the same
containers; a seeded scheduler runs one of them at a time and moves control only at lines
of the library, as the run's schedule says.

P22: KeyboardInterrupt or MemoryError is raised at the n-th executed line of the library,
inside any call of the catalogue, also in the middle of tracing; calls with invalid
arguments fail by themselves. The caller retries and goes on with the same objects.
"""

from __future__ import annotations

import functools
import gc
import os
import pickle
import re
import shutil
import sys
import tempfile

import jax
import jax.numpy as jnp
import numpy as np

from ..sched import Sched, gen_gaps
from ..util import Skip, Violation, rng
from .base import REPO_PKG, Ctx, make_jobs
from .containers import COMPONENTS

try:
    from jax._src.core import trace_state_clean
except ImportError:  # pragma: no cover
    trace_state_clean = jax.core.trace_state_clean

_COUNT = [0]


def fail(kind, *msg):
    raise Violation(kind, " ".join(str(m) for m in msg))


# ------------------------------------------------------------------ fresh classes


def define(recipe):
    """A new class, importable by name."""
    from xtructure import FieldDescriptor as FD
    from xtructure import xtructure_dataclass

    _COUNT[0] += 1
    tag = "%06d" % _COUNT[0]

    def mk(name, ann, **kw):
        c = type(name + tag, (), {"__annotations__": ann, "__module__": __name__})
        c = xtructure_dataclass(c, **kw) if kw else xtructure_dataclass(c)
        globals()[name + tag] = c
        return c

    if recipe == "plain":
        return mk("P", {"k": FD.scalar(dtype=jnp.uint32), "t": FD.tensor(dtype=jnp.uint8, shape=(2, 2))})
    if recipe == "nested":
        inner = mk("I", {"p": FD.scalar(dtype=jnp.uint16), "q": FD.tensor(dtype=jnp.bool_, shape=(3,))})
        return mk("N", {"k": FD.scalar(dtype=jnp.uint32), "inner": FD.scalar(dtype=inner),
                        "two": FD.tensor(dtype=inner, shape=(2,))})
    if recipe == "bits":
        inner = mk("J", {"a": FD.scalar(dtype=jnp.uint8, bits=3)}, bitpack="off")
        return mk("B", {"face": FD.tensor(dtype=jnp.uint8, shape=(11,), bits=3), "flag": FD.tensor(dtype=jnp.bool_, shape=(5,), bits=1),
                        "in_": FD.scalar(dtype=inner)})
    if recipe == "packed":
        return mk("K", {"cells": FD.packed_tensor(unpacked_shape=(19,), packed_bits=3), "n": FD.scalar(dtype=jnp.uint32)})
    if recipe == "float":
        return mk("F", {"a": FD.scalar(dtype=jnp.float32), "v": FD.tensor(dtype=jnp.float32, shape=(3,))})
    raise ValueError(recipe)


RECIPES = ["plain", "nested", "bits", "packed", "float"]


def drop(c):
    for k in [k for k, v in globals().items() if k[-1].isdigit() and isinstance(v, type)]:
        if k in _KEEP:
            continue
        globals().pop(k, None)


_KEEP: set = set()


class World_:
    """What the calls of one execution share."""

    def __init__(self, recipe, seed, tmp):
        self.recipe, self.tmp, self.seed = recipe, tmp, seed
        self.C = define(recipe)
        k1, k2 = jax.random.split(jax.random.PRNGKey(seed))
        self.x = rebuild(self.C, (4,), seed)
        self.y = rebuild(self.C, (4,), seed + 1)
        self.table = self.heap = None

    def containers(self):
        from xtructure import BGPQ, HashTable

        if self.table is None:
            self.table = HashTable.build(self.C, 7, 16)
            self.heap = BGPQ.build(16, 4, self.C, jnp.float32)

    def raw(self):
        return [np.asarray(v).tobytes() for v in jax.tree_util.tree_leaves((self.x, self.y))]


def rebuild(C, shape, seed):
    """An instance whose leaves depend on the seed alone."""
    r = np.random.RandomState(seed & 0x7FFFFFFF)

    def leaf(path, v):
        s = shape + v.shape
        if v.dtype == jnp.bool_:
            return jnp.asarray(r.randint(0, 2, size=s).astype(bool))
        if np.issubdtype(v.dtype, np.floating):
            return jnp.asarray(r.randint(0, 9, size=s).astype(v.dtype))
        return jnp.asarray(r.randint(0, 8 if "face" in str(path) or ".a" in str(path) else 200, size=s).astype(v.dtype))

    return jax.tree_util.tree_map_with_path(leaf, C.default())


# ------------------------------------------------------------------ the catalogue


def norm(v):
    """Comparable form of a result: names of fresh classes do not matter."""
    if isinstance(v, str):
        return re.sub(r"(?<=[A-Z])\d{6}", "", v)
    if isinstance(v, (tuple, list)):
        return [norm(a) for a in v]
    if isinstance(v, (int, bool, type(None))):
        return v
    out = []
    for leaf in jax.tree_util.tree_leaves(v):
        a = np.asarray(leaf)
        out.append((str(a.dtype), a.shape, a.tobytes()))
    return out


def _fields(C):
    return list(C.__dataclass_fields__)


def c_default(w, k):
    return w.C.default((k % 3,)), w.C.default(), w.C.default((2, 1))


def c_random(w, k):
    return w.C.random((3,), jax.random.PRNGKey(k))


def c_shape(w, k):
    x = (w.x, w.y)[k % 2]
    return str(x.shape), str(x.dtype), str(x.structured_type), str(x.ndim), str(x.batch_shape)


def c_shape_all(w, k):
    z = w.x.reshape((2, 2))
    return [str(v) for v in (z.shape, z.dtype, z.batch_shape, w.C.default_shape, w.C.default_dtype, w.x[0].structured_type)]


def c_hash(w, k):
    v = w.x[k % 4]
    return v.hash(k), v.hash_pair(k), v.uint32ed, v.bytes


def c_vhash(w, k):
    return jax.jit(jax.vmap(lambda v: v.hash_with_uint32ed(k)))(w.x)


def c_packed(w, k):
    if hasattr(w.C, "Packed"):
        p = w.x.packed
        return p, p.as_original(), p.unpack_field("face"), p.unpacked.flag, p[k % 4].unpacked.face
    if hasattr(w.x, "cells_unpacked"):
        z = w.y.set_unpacked(cells=w.x.cells_unpacked)
        return z, z.cells_unpacked
    return None


def c_str(w, k):
    return str(w.x[k % 4]), str(w.C.default()), str(w.y)


def c_index(w, k):
    return w.x[k % 4], w.x[::2], w.x[jnp.array([3, k % 4])], w.x[np.array([True, False, True, True])]


def c_set(w, k):
    i = k % 4
    return (w.x.at[i].set(w.y[3 - i]), w.x.at[jnp.array([0, 2])].set(w.y[1:3]),
            w.x.at[jnp.array([i, 0, i])].set_as_condition(jnp.array([True, False, True]), w.y[:3]))


def c_eq(w, k):
    return w.x == w.y, w.x != w.x, w.x == w.x


def c_resh(w, k):
    z = w.x.reshape((2, 2))
    return z, z.flatten(), z.transpose(), w.x.replace()


def c_xnp(w, k):
    from xtructure import numpy as xnp

    return (xnp.concat([w.x, w.y]), xnp.stack([w.x, w.y]), xnp.take(w.x, jnp.array([1, 1, k % 4])), xnp.pad(w.y, ((1, k % 3),)),
            xnp.roll(w.x, 1), xnp.flip(w.y), xnp.tile(w.x, (2,)), xnp.split(w.x, 2))


def c_unique(w, k):
    from xtructure import numpy as xnp

    z = xnp.concat([w.x, w.x])
    return xnp.unique_mask(z), xnp.unique_mask(z, jnp.arange(8.0)[::-1], return_inverse=True, return_index=True)


def c_update(w, k):
    from xtructure import numpy as xnp

    return xnp.update_on_condition(w.x, jnp.array([1, 3, 1]), jnp.array([True, k % 2 == 0, True]), w.y[:3])


def c_ctor(w, k):
    f = {n: getattr(w.x, n) for n in _fields(w.C)}
    z = w.C(**f)
    return z, z == w.x, w.C.from_tuple(w.x.to_tuple())


def c_tree(w, k):
    leaves, tree = jax.tree_util.tree_flatten(w.x)
    return jax.tree_util.tree_unflatten(tree, leaves), jax.tree_util.tree_map(lambda a: a[:2], w.y), len(leaves)


def c_pickle(w, k):
    return pickle.loads(pickle.dumps((w.x, w.x.shape and w.y)))[0]


def c_jit(w, k):
    f = jax.jit(lambda a, b: a.at[1].set(b[0]).reshape((2, 2)))
    return f(w.x, w.y), jax.vmap(lambda a: a.replace())(w.x)


def c_save(w, k):
    from xtructure.io.io import load

    p = os.path.join(w.tmp, "%d-%d.npz" % (k, w.salt()))
    w.x.save(p)
    return w.C.load(p), load(p)


def c_define(w, k):
    C = define(RECIPES[k % len(RECIPES)])
    x = rebuild(C, (3,), k)
    return x[1], str(x.shape), str(x.dtype), x[0].uint32ed, str(C.default())


def c_stack(w, k):
    from xtructure import Queue, Stack

    s = Stack.build(9, w.C).push(w.x).push(w.y[0])
    q = Queue.build(9, w.C).enqueue(w.y).enqueue(w.x[k % 4])
    return s.pop(2), q.dequeue(3), s.size, q.size


def c_table(w, k):
    w.containers()
    t, inserted, unique, idx = w.table.parallel_insert(w.x)
    i, found = t.lookup_parallel(w.y)
    return t, inserted, unique, found, t.lookup(w.x[k % 4]), t[idx]


def c_heap(w, k):
    w.containers()
    h = w.heap.insert(jnp.array([3.0, 1.0, 2.0, float(k % 7)]), w.x)
    return h, h.delete_mins()


def bad_set(w, k):
    w.x.at[0].set("nonsense")


def bad_cond(w, k):
    w.x.at[jnp.array([0, 1])].set_as_condition(jnp.array([True, False]), rebuild(w.C, (3,), k))


def bad_reshape(w, k):
    w.x.reshape((3, 5))


def bad_concat(w, k):
    from xtructure import numpy as xnp

    xnp.concat([w.x, w.x.reshape((2, 2))])


def bad_load(w, k):
    w.C.load(os.path.join(w.tmp, "missing.npz"))


def bad_class(w, k):
    from xtructure import xtructure_dataclass

    xtructure_dataclass(type("Bad", (), {"__annotations__": {"a": int}, "__module__": __name__}))


LIGHT = ["default", "random", "shape", "shape", "shape_all", "hash", "vhash", "packed", "packed", "str", "index", "set", "eq", "resh", "xnp",
         "unique", "update", "update", "set", "set", "ctor", "tree", "pickle", "jit", "save", "define"]
HEAVY = ["stack", "table", "heap"]
BAD = ["set", "cond", "reshape", "concat", "load", "class"]
CALLS = {n: globals()["c_" + n] for n in set(LIGHT + HEAVY)}
CALLS.update({"bad_" + n: globals()["bad_" + n] for n in BAD})


def clear_lru():
    for o in gc.get_objects():
        if isinstance(o, functools._lru_cache_wrapper) and str(getattr(o, "__module__", "")).startswith("xtructure"):
            o.cache_clear()


def call(w, name, k, salt=0):
    w.salt = lambda: salt
    return norm(CALLS[name](w, k))


def baseline(recipe, seed, tmp, todo):
    """Results of the calls, undisturbed, on a twin class."""
    w = World_(recipe, seed, tmp)
    out = {}
    for name, k in todo:
        if (name, k) in out:
            continue
        try:
            out[name, k] = ("ok", call(w, name, k, 1))
        except Exception as e:  # noqa: BLE001
            if not name.startswith("bad_"):
                raise Violation("raised", f"{recipe}: {name}({k}): {type(e).__name__}: {str(e)[:400]}") from e
            out[name, k] = ("raised", None)
    return out


def compare(want, got, what):
    if want != got:
        fail("disturbed", f"{what}: another result than the undisturbed call: {str(got)[:300]} / {str(want)[:300]}")


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="simshare")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)
        drop(None)


# ------------------------------------------------------------------ P21


def traced(sched, fn):
    """Run fn with a switch point at every line of the library (outside of tracing)."""

    def local(frame, event, arg):
        if event == "line" and trace_state_clean():
            sched.point()
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(REPO_PKG) else None

    def body():
        sys.settrace(tracer)
        try:
            fn()
        finally:
            sys.settrace(None)

    return body


class Threads:
    @staticmethod
    def gen(cfg, r):
        n = r.choice([2, 2, 3])
        calls = LIGHT + HEAVY * 2 if cfg.get("heavy") else LIGHT
        common = [[r.choice(calls), r.randrange(8)] for _ in range(2)]
        # Threads mostly run the same calls: that is where they meet.
        threads = [[list(r.choice(common)) if r.random() < .5 else [r.choice(calls), r.randrange(8)]
                    for _ in range(r.randint(1, 4))] for _ in range(n)]
        return {"recipe": r.choice(RECIPES), "vseed": r.randrange(1000), "threads": threads, "clear": r.random() < .3,
                "gaps": gen_gaps(r, r.choice([2, 4, 10, 25]), r.choice([6, 20, 60])), "first": r.randrange(n)}

    @staticmethod
    def run(ctx, cfg, p):
        with Scratch() as tmp:
            todo = [tuple(c) for t in p["threads"] for c in t]
            want = baseline(p["recipe"], p["vseed"], tmp, todo)
            if p["clear"]:
                clear_lru()
            w = World_(p["recipe"], p["vseed"], tmp)
            frozen = w.raw()
            if cfg.get("heavy"):
                w.containers()
            got = [[] for _ in p["threads"]]
            s = Sched(p["gaps"])

            def body(t):
                for i, (name, k) in enumerate(p["threads"][t]):
                    w2 = _View(w, 10 + 10 * t + i)
                    got[t].append(("ok", norm(CALLS[name](w2, k))))

            for t in range(len(p["threads"])):
                s.add(traced(s, lambda t=t: body(t)))
            s.run(p["first"])
            ctx.steps += s.steps
            ctx.faults["preemption"] += s.switches
            ctx.extra["switch_points"] += s.steps
            ctx.state("schedule", p["recipe"], str(p["threads"]), tuple(s.trace))
            for t, wk in enumerate(s.workers):
                if wk.error is not None:
                    e = wk.error
                    name = p["threads"][t][len(got[t])] if len(got[t]) < len(p["threads"][t]) else "?"
                    fail("raised", f"{p['recipe']}: thread {t}, call {name}: {type(e).__name__}: {str(e)[:400]}")
                for (name, k), g in zip(p["threads"][t], got[t]):
                    ctx.ops[name] += 1
                    compare(want[name, k], g, f"{p['recipe']}: thread {t}, {name}({k})")
            if w.raw() != frozen:
                fail("mutated", "a shared instance changed")
            for name, k in todo:
                compare(want[name, k], ("ok", call(w, name, k, 2)), f"{p['recipe']}: {name}({k}) after the threads ended")


class _View:
    """The shared world, with this call's own file name."""

    def __init__(self, w, salt):
        self._w, self._salt = w, salt

    def __getattr__(self, n):
        return getattr(self._w, n)

    def salt(self):
        return self._salt


# ------------------------------------------------------------------ P22


class Interrupts:
    @staticmethod
    def gen(cfg, r):
        calls = LIGHT + HEAVY if cfg.get("heavy") else LIGHT
        ops = []
        for _ in range(r.randint(2, 7)):
            if r.random() < .15:
                ops.append({"call": "bad_" + r.choice(BAD), "k": r.randrange(8)})
            else:
                op = {"call": r.choice(calls), "k": r.randrange(8)}
                if r.random() < .8:
                    op["at"] = [min(1 + int(r.expovariate(1 / r.choice([3, 15, 60, 200]))), 3000) for _ in range(r.choice([1, 1, 2]))]
                    op["exc"] = r.choice(["KeyboardInterrupt", "MemoryError", "MemoryError", "RecursionError"])
                ops.append(op)
        return {"recipe": r.choice(RECIPES), "vseed": r.randrange(1000), "ops": ops, "clear": r.random() < .5,
                "after": [[r.choice(calls), r.randrange(8)] for _ in range(4)], "born": r.random() < .3,
                "born_at": min(1 + int(r.expovariate(1 / 60)), 1500)}

    @staticmethod
    def run(ctx, cfg, p):
        with Scratch() as tmp:
            todo = [(o["call"], o["k"]) for o in p["ops"]] + [tuple(c) for c in p["after"]]
            want = baseline(p["recipe"], p["vseed"], tmp, todo)
            if p["clear"]:
                clear_lru()
            if p["born"]:  # the definition of a class fails, and is tried again
                ctx.interrupted(("define",), lambda: define(p["recipe"]), at=p["born_at"], exc=MemoryError)
            w = World_(p["recipe"], p["vseed"], tmp)
            frozen = w.raw()
            for n, op in enumerate(p["ops"]):
                name, k = op["call"], op["k"]
                what = f"{p['recipe']}: {name}({k})"
                if name.startswith("bad_"):
                    ctx.ops[name] += 1
                    ctx.steps += 1
                    try:
                        call(w, name, k)
                        got = ("ok", None)
                    except Exception:  # noqa: BLE001
                        got = ("raised", None)
                        ctx.faults["invalid_call"] += 1
                    if got[0] != want[name, k][0]:
                        fail("disturbed", f"{what}: {got[0]}, {want[name, k][0]} without faults before")
                    continue
                for at in op.get("at", []):
                    E = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RecursionError": RecursionError}[op["exc"]]
                    res = []
                    if not ctx.interrupted((name,), lambda: res.append(call(w, name, k, 10 + n)), at=at, exc=E) and res and name != "str":
                        # (text is best effort: the formatter prints a note in place of a value it cannot convert)
                        compare(want[name, k], ("ok", res[0]), what + " (interrupt swallowed or too late)")
                    ctx.state(p["recipe"], name, at, op["exc"])
                    if w.raw() != frozen:
                        fail("mutated", f"{what}: an interrupted call changed its arguments")
                Interrupts.again(ctx, w, name, k, want, what + f" retried after {op.get('exc')} at {op.get('at')}", 100 + n)
            for n, (name, k) in enumerate(p["after"]):
                Interrupts.again(ctx, w, name, k, want, f"{p['recipe']}: {name}({k}) after {[o['call'] for o in p['ops']]}", 200 + n)
            if w.raw() != frozen:
                fail("mutated", "an instance changed")

    @staticmethod
    def again(ctx, w, name, k, want, what, salt):
        ctx.ops[name] += 1
        ctx.steps += 1
        try:
            got = call(w, name, k, salt)
        except Exception as e:  # noqa: BLE001
            fail("raised", f"{what}: {type(e).__name__}: {str(e)[:400]}")
        compare(want[name, k], ("ok", got), what)


PARTS = {"P21": Threads, "P22": Interrupts}


def variants(pid, tier):
    q = tier == "quick"
    out = []
    for i in range(6 if q else 24):
        out.append(({}, {"part": i}))
    for i in range(2 if q else 10):
        out.append(({}, {"part": 100 + i, "heavy": 1, "runs": .35}))
    return out


class World:
    LEVEL = "exploration"
    TECHNIQUE = "deterministic simulation"
    COMPONENTS = {**COMPONENTS, "simulated": ["thread scheduling (real threads, one at a time, switched at lines of the library)"]}
    RULE = "a state counts once per distinct (class, call, schedule) or (class, call, line of interruption)"
    ASSUMPTIONS = ["control moves between threads only at line boundaries of the library's own Python code, outside JAX tracing",
                   "JAX itself is thread-safe"]

    def __init__(self, pid):
        self.ID = pid
        self.part = PARTS[pid]
        if pid == "P22":
            self.COMPONENTS = {**COMPONENTS, "simulated": ["interrupts, failing allocations and recursion limits (exception raised at a chosen line)"]}
            self.ASSUMPTIONS = ["failures surface as exceptions at line boundaries of the library's own Python code"]

    def jobs(self, tier, seed):
        n = {"P21": (40, 400), "P22": (90, 900)}[self.ID][0 if tier == "quick" else 1]
        return make_jobs(variants(self.ID, tier), n, seed, self.ID)

    def gen(self, cfg, seed):
        return {"cfg": cfg, "seed": seed, "ops": [self.part.gen(cfg, rng(self.ID, seed))]}

    def run(self, case):
        ctx = Ctx(case)
        for p in case["ops"]:
            self.part.run(ctx, case["cfg"], p)
        return ctx.result()

    def shrink(self, case):
        p = case["ops"][0]

        def w(**k):
            return {**case, "ops": [{**p, **k}]}

        if self.ID == "P21":
            for t in range(len(p["threads"])):
                if len(p["threads"]) > 2:
                    yield w(threads=p["threads"][:t] + p["threads"][t + 1:])
                for i in range(len(p["threads"][t])):
                    if len(p["threads"][t]) > 1:
                        c = [list(x) for x in p["threads"]]
                        del c[t][i]
                        yield w(threads=c)
            if p["gaps"]:
                yield w(gaps=p["gaps"][:-1])
                yield w(gaps=p["gaps"][: len(p["gaps"]) // 2])
        else:
            for f in ("ops", "after"):
                for i in range(len(p[f])):
                    yield w(**{f: p[f][:i] + p[f][i + 1:]})
            if p["born"]:
                yield w(born=False)
        if p["clear"]:
            yield w(clear=False)


def make(pid):
    return World(pid)
