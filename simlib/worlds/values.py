"""P26: comparing instances; P27: creating instances.

P26: replicas of one batch receive the same updates, some lost, repeated or with one bit
flipped; the library compares replicas and must say exactly what NumPy says about their
contents.  P27: classes whose declarations the simulator knows independently are
instantiated in every execution mode, in another process, after interrupted and refused
calls; what comes out must be what was declared and depend on the arguments alone.
"""

import jax
import jax.numpy as jnp
import numpy as np

from xtructure import FieldDescriptor as FD
from xtructure import xtructure_dataclass

from ..util import Violation, rng
from .base import Ctx, make_jobs, np_tree
from .containers import COMPONENTS, DEV_ASSUME
from .hist import pool


def fail(kind, *msg):
    raise Violation(kind, " ".join(str(m) for m in msg))


# ------------------------------------------------------------------ P26


def holds_subnormal(x):
    k = jnp.issubdtype(x.dtype, jnp.floating)
    if not k:
        return False
    f = x.astype(np.float64)
    with np.errstate(all="ignore"):
        return bool(((f != 0) & (np.abs(f) < float(jnp.finfo(x.dtype).tiny))).any())


def flip(leaf, pos, bit):
    out = np.array(leaf, copy=True)
    flat = out.reshape(-1)
    j = pos % flat.size
    if flat.dtype == np.bool_:
        flat[j] = ~flat[j]
    else:
        u = flat.view(np.uint8)
        u[j * flat.itemsize + (bit // 8) % flat.itemsize] ^= np.uint8(1 << (bit % 8))
    return out


class Compare:
    def __init__(self, ctx, cfg):
        self.ctx, self.cfg = ctx, cfg
        self.p = pool(cfg["cls"], 24, 7)
        self.live = []

    def inst(self, leaves):
        return jax.tree_util.tree_unflatten(self.p.tree, [jnp.asarray(x) for x in leaves])

    def push(self, leaves, obj=None):
        self.live.append((leaves, self.inst(leaves) if obj is None else obj))
        if len(self.live) > 6:
            self.live.pop(0)

    def step(self, op):
        k, ctx, p = op["op"], self.ctx, self.p
        r = rng("cmp", op["seed"])
        if k == "new" or not self.live:
            sh = tuple(self.cfg["shapes"][r.randrange(len(self.cfg["shapes"]))])
            ids = np.array([r.randrange(p.n) for _ in range(int(np.prod(sh)))], np.int64).reshape(sh)
            self.push([x[ids] for x in p.leaves])
            return
        leaves, obj = self.live[op["a"] % len(self.live)]
        batch = leaves[0].shape[: leaves[0].ndim - len(p.specs[0][1])]
        if k == "replica":
            ctx.faults["message_duplicated"] += 1
            self.push([np.array(x, copy=True) for x in leaves])
        elif k == "restart":
            self.push(leaves, ctx.restart(obj))
        elif k == "flip":
            j = r.randrange(len(leaves))
            if leaves[j].size and leaves[j].dtype.itemsize * 8 > 4 and "int4" not in str(leaves[j].dtype):
                new = flip(leaves[j], r.randrange(1 << 20), r.choice([r.randrange(64), 7, 15, 31, 0]))
                if not holds_subnormal(new):
                    ctx.faults["bit_flip"] += 1
                    self.push(leaves[:j] + [new] + leaves[j + 1:])
        elif k == "flipall":  # the same bit of every element, so that the differences are many and regular
            j = r.randrange(len(leaves))
            x = leaves[j]
            if x.size and "int4" not in str(x.dtype):
                u = np.array(x, copy=True).reshape(-1).view(np.uint8).reshape(-1, x.dtype.itemsize)
                some = slice(None) if r.random() < .7 else slice(0, 1 << r.randrange(20))
                u[some, r.randrange(x.dtype.itemsize)] ^= np.uint8(1 if x.dtype == np.bool_ else 1 << r.randrange(8))
                new = u.reshape(-1).view(x.dtype).reshape(x.shape)
                if not holds_subnormal(new):
                    ctx.faults["bit_flip"] += 1
                    self.push(leaves[:j] + [new] + leaves[j + 1:])
        elif k == "update":
            if batch and batch[0]:
                i, v = r.randrange(batch[0]), r.randrange(p.n)
                row = p.take(v)
                new = [np.array(x, copy=True) for x in leaves]
                for x, y in zip(new, p.leaves):
                    x[i] = y[v]
                if r.random() < .3:
                    ctx.faults["message_lost"] += 1
                    self.push(leaves)
                self.push(new, ctx.lib(("update", self.cfg["cls"], batch, i), lambda o, q: o.at[i].set(q), obj, row, mode="api"))
        elif k == "alien":
            for other in (5, None, "x", pool("Inner").take(0)):
                e, n = obj == other, obj != other
                if (e, n) != (False, True):
                    fail("comparison", f"comparing with {type(other).__name__} gave == {e} and != {n}")
        else:
            y, oy = self.live[op["b"] % len(self.live)]
            if r.random() < .2 and all(s == () for _, s, _ in p.specs):
                y = [x[r.randrange(p.n)] for x in p.leaves]
                oy = self.inst(y)
            self.compare(op, leaves, obj, y, oy, r)

    def compare(self, op, a, x, b, y, r):
        from xtructure import numpy as xnp

        ctx, form, cls = self.ctx, op["form"], self.cfg["cls"]
        try:
            eq = [p == q for p, q in zip(a, b)] if all(p.ndim == q.ndim for p, q in zip(a, b)) or all(q.ndim == 0 for q in b) else None
            if eq is None or any(np.broadcast_shapes(p.shape, q.shape) != p.shape for p, q in zip(a, b)):
                return
        except ValueError:
            return
        if cls == "Exotic" and form in ("isclose", "allclose"):
            form = "=="
        f = {"==": lambda p, q: p == q, "!=": lambda p, q: p != q,
             "equal": lambda p, q: p.equal(q) if op["seed"] % 2 else xnp.equal(p, q), "not_equal": lambda p, q: xnp.not_equal(p, q),
             "isclose": lambda p, q: xnp.isclose(p, q, rtol=1e-3, atol=1e-3), "allclose": lambda p, q: xnp.allclose(p, q, rtol=1e-3, atol=1e-3)}[form]
        before = [np.asarray(v).tobytes() for o in (x, y) for v in np_tree(o)]
        mode = op["mode"]
        fid = ("cmp", form, cls, a[0].shape, b[0].shape, op["seed"] % 2)
        if op.get("intr"):
            ctx.interrupted(fid, f, x, y, at=1 + op["intr"])
        if mode == "vmap":
            both = [jax.tree_util.tree_map(lambda u, v: jnp.stack([jnp.asarray(u), jnp.asarray(v)]), u, v) for u, v in ((x, x), (y, x))] \
                if a[0].shape == b[0].shape else None
            if both is None:
                mode = "api"
            else:
                out = ctx.lib(fid + ("vmap",), jax.vmap(f), *both, mode="jit")
                self.judge(form, jax.tree_util.tree_map(lambda l: l[1], out), a, a)
                out = jax.tree_util.tree_map(lambda l: l[0], out)
        if mode != "vmap":
            out = ctx.lib(fid, f, x, y, mode=mode, seed=op["seed"])
        self.judge(form, out, a, b)
        if [np.asarray(v).tobytes() for o in (x, y) for v in np_tree(o)] != before:
            fail("mutated", f"{form} changed its arguments")
        ctx.state(form, cls, a[0].shape, tuple(int(e.all()) for e in eq), int(sum(int((~e).sum()) for e in eq)))

    def judge(self, form, out, a, b):
        cls = self.cfg["cls"]
        eq = [p == q for p, q in zip(a, b)]
        if form in ("==", "!="):
            want = all(bool(e.all()) for e in eq)
            if form == "!=":
                want = not want
            got = np.asarray(out)
            if got.shape != () or bool(got) != want:
                fail("comparison", f"{form} on {cls} {a[0].shape}: got {got}, the contents say {want}; fields equal: {[bool(e.all()) for e in eq]}")
            return
        if form in ("equal", "not_equal"):
            got = np_tree(out)
            for (path, _, _), g, e in zip(self.p.specs, got, eq):
                w = e if form == "equal" else ~e
                if g.dtype != np.bool_ or g.shape != w.shape or (g != w).any():
                    fail("comparison", f"{form} on {cls}.{path}: wrong answer")
            return
        sure, never = [], []
        for p, q in zip(a, b):
            q = np.broadcast_to(q, p.shape)
            f, g = p.astype(np.float64), q.astype(np.float64)
            with np.errstate(all="ignore"):
                sure.append((p == q))
                never.append(~(p == q) & ~(np.abs(f - g) <= 3e-3 * np.abs(g) + 3e-3))
        if form == "allclose":
            got = bool(np.asarray(out))
            if all(s.all() for s in sure) and not got or any(n.any() for n in never) and got:
                fail("comparison", f"allclose on {cls}: got {got}")
            return
        for (path, _, _), g, s, n in zip(self.p.specs, np_tree(out), sure, never):
            if g.shape != s.shape or (s & ~g).any() or (n & g).any():
                fail("comparison", f"isclose on {cls}.{path}: wrong answer")


# ------------------------------------------------------------------ P27


def ramp(shape, dtype):
    """A default that depends on the record's own shape."""
    return np.broadcast_to(np.arange(shape[-1]), shape).astype(np.dtype(dtype))


@xtructure_dataclass
class DScalars:
    u8: FD.scalar(dtype=jnp.uint8)
    u16: FD.scalar(dtype=jnp.uint16, default=7)
    u32: FD.scalar(dtype=jnp.uint32)
    i8: FD.scalar(dtype=jnp.int8, default=-3)
    i16: FD.scalar(dtype=jnp.int16)
    i32: FD.scalar(dtype=jnp.int32, default=-(2**31))
    f32: FD.scalar(dtype=jnp.float32)
    f16: FD.scalar(dtype=jnp.float16, default=0.5)
    b: FD.scalar(dtype=jnp.bool_)
    t: FD.scalar(dtype=jnp.bool_, default=True)
    z: FD.scalar(dtype=jnp.uint32, default=0)


@xtructure_dataclass
class DTensors:
    a: FD.tensor(dtype=jnp.uint32, shape=(3,), fill_value=0xDEADBEEF)
    b: FD.tensor(dtype=jnp.int16, shape=(2, 2))
    c: FD.tensor(dtype=jnp.float32, shape=(4,), fill_value_factory=ramp)
    d: FD.tensor(dtype=jnp.uint8, shape=(5,), fill_value_factory=ramp)
    e: FD.tensor(dtype=jnp.bfloat16, shape=(1,), fill_value=-1.5)
    g: FD.tensor(dtype=jnp.bool_, shape=(2, 1, 3), fill_value=True)


@xtructure_dataclass
class DNested:
    one: FD.scalar(dtype=DScalars)
    two: FD.scalar(dtype=DScalars)
    many: FD.tensor(dtype=DTensors, shape=(2,))
    k: FD.scalar(dtype=jnp.int32, default=11)


@xtructure_dataclass(validate=True)
class DChecked:
    a: FD.tensor(dtype=jnp.uint32, shape=(3,), fill_value=4)
    b: FD.scalar(dtype=jnp.float32, default=2.0)
    n: FD.scalar(dtype=DTensors)


_S = [("u8", np.uint8, (), 255), ("u16", np.uint16, (), 7), ("u32", np.uint32, (), 2**32 - 1), ("i8", np.int8, (), -3), ("i16", np.int16, (), 0),
      ("i32", np.int32, (), -(2**31)), ("f32", np.float32, (), np.inf), ("f16", np.float16, (), .5), ("b", np.bool_, (), False),
      ("t", np.bool_, (), True), ("z", np.uint32, (), 0)]
_T = [("a", np.uint32, (3,), 0xDEADBEEF), ("b", np.int16, (2, 2), 0), ("c", np.float32, (4,), [0, 1, 2, 3]), ("d", np.uint8, (5,), [0, 1, 2, 3, 4]),
      ("e", jnp.bfloat16, (1,), -1.5), ("g", np.bool_, (2, 1, 3), True)]
DECL = {
    "DScalars": _S,
    "DTensors": _T,
    "DNested": [(f"one.{n}", d, s, v) for n, d, s, v in _S] + [(f"two.{n}", d, s, v) for n, d, s, v in _S]
    + [(f"many.{n}", d, (2,) + s, v) for n, d, s, v in _T] + [("k", np.int32, (), 11)],
    "DChecked": [("a", np.uint32, (3,), 4), ("b", np.float32, (), 2.0)] + [(f"n.{n}", d, s, v) for n, d, s, v in _T],
}
TYPES = {c.__name__: c for c in (DScalars, DTensors, DNested, DChecked)}


def fields(obj, pre=""):
    """[(dotted name, array)] in declaration order, without relying on the pytree."""
    out = []
    for n in type(obj).__dataclass_fields__:
        v = getattr(obj, n)
        out += fields(v, pre + n + ".") if getattr(type(v), "is_xtructed", False) else [(pre + n, v)]
    return out


_DRAW: dict = {}


def drawn(cls, shape, seed, how="api"):
    """The bytes random() gives."""
    c = TYPES[cls]
    key = jax.random.PRNGKey(seed)
    if how == "jit":
        f = _DRAW.setdefault((cls, tuple(shape)), jax.jit(lambda k: c.random(tuple(shape), key=k)))
        obj = f(key)
    elif how == "nojit":
        with jax.disable_jit():
            obj = c.random(tuple(shape), key=key)
    elif how == "vmap":
        obj = jax.vmap(lambda k: c.random(tuple(shape), key=k))(jnp.stack([jax.random.PRNGKey(seed + 1), key]))
        obj = jax.tree_util.tree_map(lambda v: v[1], obj)
    else:
        obj = c.random(tuple(shape), key=key)
    return obj


def serve(cls, shape, seed, how):
    return {"bytes": [np.asarray(v).tobytes() for _, v in fields(drawn(cls, shape, seed, how))]}


class Create:
    def __init__(self, ctx, cfg):
        self.ctx, self.cfg = ctx, cfg
        self.seen = {}

    def form(self, obj, cls, shape, why):
        got = fields(obj)
        if [n for n, _ in got] != [n for n, *_ in DECL[cls]]:
            fail("creation", f"{why}: fields {[n for n, _ in got]}")
        for (n, dt, sh, _), (_, v) in zip(DECL[cls], got):
            if np.dtype(v.dtype) != np.dtype(dt) or tuple(v.shape) != tuple(shape) + tuple(sh):
                fail("creation", f"{why}: {n} is {v.dtype}{v.shape}, declared {np.dtype(dt)}{sh} for batch {shape}")
        return got

    def make(self, fid, fn, op):
        ctx = self.ctx
        if op.get("intr"):
            exc = (KeyboardInterrupt, MemoryError, ValueError)[op["seed"] % 3]
            ctx.interrupted(fid, fn, at=1 + op["intr"], exc=exc)
        mode = op["mode"]
        if mode == "nojit":
            with jax.disable_jit():
                return ctx.lib(fid, fn, mode="api")
        return ctx.lib(fid, fn, mode=mode, seed=op["seed"])

    def step(self, op):
        ctx, k = self.ctx, op["op"]
        r = rng("create", op["seed"])
        cls = self.cfg["cls"]
        c = TYPES[cls]
        shape = tuple(self.cfg["shapes"][r.randrange(len(self.cfg["shapes"]))])
        if k == "default":
            obj = self.make((k, cls, shape), lambda: c.default(shape) if shape or op["seed"] % 2 else c.default(), op)
            for (n, dt, sh, want), (_, v) in zip(DECL[cls], self.form(obj, cls, shape, "default")):
                w = np.broadcast_to(np.asarray(want, np.float64 if isinstance(want, (float, list)) else None).astype(dt), shape + tuple(sh))
                if np.asarray(v).tobytes() != np.ascontiguousarray(w).tobytes():
                    fail("creation", f"default({shape}): {n} is not the declared default")
        elif k == "like":
            obj = c.random(shape, key=jax.random.PRNGKey(op["seed"] % 1000))
            from xtructure import numpy as xnp

            what = r.choice(["zeros_like", "ones_like", "full_like"])
            fn = {"zeros_like": xnp.zeros_like, "ones_like": xnp.ones_like, "full_like": lambda x: xnp.full_like(x, 1)}[what]
            keep = [np.asarray(v).tobytes() for _, v in fields(obj)]
            out = ctx.lib((what, cls, shape), fn, obj, mode="api" if op["mode"] == "nojit" else op["mode"], seed=op["seed"])
            for n, v in self.form(out, cls, shape, what):
                if (np.asarray(v) != np.asarray(what != "zeros_like").astype(v.dtype)).any():
                    fail("creation", f"{what}: {n} has other values")
            if [np.asarray(v).tobytes() for _, v in fields(obj)] != keep:
                fail("mutated", f"{what} changed its argument")
        elif k == "random":
            seed = r.choice([0, 1, 12345, 2**31 - 1])
            how = r.choice(["api", "jit", "nojit", "vmap", "node", "node"])
            if how == "nojit" and (cls != "DScalars" or r.random() < .7):
                how = "api"  # threefry without compilation is very slow
            if op.get("intr"):
                ctx.interrupted(("random", cls), lambda: c.random(shape, key=jax.random.PRNGKey(seed)), at=1 + op["intr"])
            if how == "node":
                from ..node import node

                nd = node("v0", "909")
                if op["seed"] % 11 == 0:
                    nd.kill()
                    ctx.faults["process_crash"] += 1
                ctx.ops["random:node"] += 1
                ctx.steps += 1
                res = nd.call("values", cls=cls, shape=list(shape), seed=seed, how=("api", "jit")[op["seed"] % 2])
                if res["error"]:
                    fail("raised", f"random in another process: {res['error']}")
                raw = res["bytes"]
                ctx.faults["other_process"] += 1
            else:
                obj = ctx.lib(("random:" + how, cls, shape), lambda: drawn(cls, shape, seed, how), mode="api")
                raw = [np.asarray(v).tobytes() for _, v in self.form(obj, cls, shape, "random")]
                self.quality(obj, cls, shape, seed)
            first = self.seen.setdefault((shape, seed), (how, raw))
            if first[1] != raw:
                fail("not-reproducible", f"{cls}.random({shape}, key {seed}) run as {how} differs from run as {first[0]}")
            for (sh2, s2), (_, raw2) in self.seen.items():
                if sh2 == shape and s2 != seed and np.prod(shape) >= 4:
                    for (n, dt, sh, _), p, q in zip(DECL[cls], raw, raw2):
                        if p == q and (np.dtype(dt).itemsize * np.prod(sh, initial=1) * np.prod(shape) >= 16):
                            fail("creation", f"random: {n} is the same for keys {seed} and {s2}")
        elif k == "replace":
            obj = c.random(shape, key=jax.random.PRNGKey(op["seed"] % 1000))
            keep = {n: np.asarray(v).tobytes() for n, v in fields(obj)}
            name = r.choice([n for n in c.__dataclass_fields__])
            new = getattr(c.default(shape), name)
            out = obj.replace(**{name: new})
            back = c.from_tuple(out.to_tuple())
            want = {**keep, **{n: np.asarray(v).tobytes() for n, v in fields(c.default(shape)) if n.split(".")[0] == name}}
            for o, why in ((out, "replace"), (back, "from_tuple(to_tuple)")):
                self.form(o, cls, shape, why)
                if {n: np.asarray(v).tobytes() for n, v in fields(o)} != want:
                    fail("creation", f"{why}: other contents than the original with {name} replaced")
            if {n: np.asarray(v).tobytes() for n, v in fields(obj)} != keep:
                fail("mutated", "replace changed the original")
            ctx.ops["replace:api"] += 1
            ctx.steps += 1
        else:
            self.refuse(r, shape)
        ctx.state(k, cls, shape, op["mode"], bool(op.get("intr")))

    def quality(self, obj, cls, shape, seed):
        rows = int(np.prod(shape))
        got = fields(obj)
        for n, v in got:
            x = np.asarray(v)
            if x.dtype.kind == "f" and ((x < 0) | (x >= 1)).any():
                fail("creation", f"random: {n} outside [0, 1)")
            if x.size >= 200:
                if x.dtype == np.bool_:
                    ok = x.any() and not x.all()
                elif x.dtype.kind in "ui":
                    u = x.reshape(-1).view(f"u{x.dtype.itemsize}")
                    top = np.array(~np.uint64(0)).astype(u.dtype)
                    ok = np.bitwise_or.reduce(u) == top and np.bitwise_and.reduce(u) == 0
                else:
                    ok = len(np.unique(x.astype(np.float32))) > 20
                if not ok:
                    fail("creation", f"random: {n} does not vary over its range")
        if rows >= 16:
            seen = {}
            for n, v in got:
                b = np.asarray(v).tobytes()
                if len(b) >= 32 and seen.setdefault((str(v.dtype), b), n) != n:
                    fail("creation", f"random: fields {n} and {seen[(str(v.dtype), b)]} got the same values")

    def refuse(self, r, shape):
        ctx = self.ctx
        good = {"a": jnp.zeros(shape + (3,), jnp.uint32), "b": jnp.zeros(shape, jnp.float32), "n": DTensors.default(shape)}
        bad = r.choice([("a", jnp.zeros(shape + (3,), jnp.int32)), ("a", jnp.zeros(shape + (4,), jnp.uint32)), ("a", jnp.zeros((), jnp.uint32)),
                        ("b", jnp.zeros(shape, jnp.float16)), ("b", jnp.zeros(shape, jnp.int32)), ("n", DScalars.default(shape)),
                        ("n", jnp.zeros(shape)), ("a", jnp.zeros(shape + (3, 1), jnp.uint32)), ("a", "text"), ("b", None)])
        ctx.ops["refuse:api"] += 1
        ctx.steps += 1
        try:
            DChecked(**{**good, bad[0]: bad[1]})
        except (TypeError, ValueError):
            ctx.faults["invalid_arguments"] += 1
        except Exception as e:
            fail("validation", f"unexpected {type(e).__name__}: {e}")
        else:
            fail("validation", f"accepted {bad[0]} = {getattr(bad[1], 'dtype', type(bad[1]))}{getattr(bad[1], 'shape', '')}")
        ok = ctx.lib(("valid", shape), lambda: DChecked(**good), mode="api")
        self.form(ok, "DChecked", shape, "a valid instance")


RULES = {
    "P26": "a state counts once per (form of comparison, class, shape, which fields differ, how many elements differ)",
    "P27": "a state counts once per (operation, class, batch shape, execution mode, interrupted or not)",
}


def variants(pid, tier):
    out = []
    reps = 1 if tier == "quick" else 4
    shapes = [[[5], [5], [3]], [[2, 3], [2, 3], []], [[], [], [4]], [[0], [2], [2]], [[40], [40]]]
    k = 0
    if pid == "P26":
        for _ in range(reps):
            for cls in ("U32", "Nested", "F32", "Bits", "Pair32", "NestedArr", "Half", "IoBitsNest", "I8Pair", "Packed", "Exotic", "WideU8", "Bools"):
                modes = (["api", "jit"], ["api", "vmap"], ["dev", "api"], ["jit", "vmap"])[k % 4]
                out.append(({} if k % 6 != 5 else {"SIM_X64": "1"}, {"cls": cls, "modes": modes, "shapes": shapes[k % 5], "n": 16}))
                k += 1
        # as many elements as counters of 8 and 16 bits wrap at
        for i, (cls, sh) in enumerate((("U32", [[256], [256], [512]]), ("Nested", [[256], [256]]), ("Bools", [[16, 16], [16, 16], [256]]),
                                       ("F32", [[512], [512]]), ("U32", [[65536], [65536]]), ("I8Pair", [[131072], [256, 256]]), ("Half", [[65536], [1024]]))):
            out.append(({}, {"cls": cls, "modes": ["api", "jit"], "shapes": sh, "n": 16, "runs": .6}))
        return out
    shapes = [[[], [2, 3]], [[300], [4]], [[0], [5]], [[20, 15], [1]], [[16], []]]
    for _ in range(reps):
        for cls in TYPES:
            for j in range(3):
                out.append(({} if j or cls != "DScalars" else {"SIM_X64": "1"},
                            {"cls": cls, "modes": (["api", "jit"], ["api"], ["api", "nojit"])[j], "shapes": shapes[k % 5], "n": 12}))
                k += 1
    return out


class World:
    LEVEL = "exploration"
    TECHNIQUE = "deterministic simulation"
    COMPONENTS = COMPONENTS

    def __init__(self, pid):
        self.ID = pid
        self.RULE = RULES[pid]
        self.ASSUMPTIONS = ["no subnormal floats"] + DEV_ASSUME[:1] if pid == "P26" else ["declared fields are jax dtypes; a key is given to random"]

    def jobs(self, tier, seed):
        n = {"P26": (40, 400), "P27": (15, 150)}[self.ID][tier != "quick"]
        return make_jobs(variants(self.ID, tier), n, seed, self.ID)

    def gen(self, cfg, seed):
        r = rng("values", self.ID, seed)
        ops = []
        for _ in range(r.randint(4, cfg["n"])):
            op = {"seed": r.randrange(1 << 32), "mode": r.choice(cfg["modes"])}
            if self.ID == "P26":
                op.update(op=r.choice(["new", "replica", "replica", "restart", "flip", "flip", "flipall", "update", "alien"] + ["cmp"] * 8), a=r.randrange(6), b=r.randrange(6),
                          form=r.choice(["==", "==", "!=", "!=", "equal", "not_equal", "isclose", "allclose"]))
            else:
                op.update(op=r.choice(["default", "default", "random", "random", "random", "like", "replace", "refuse"]))
            if r.random() < .12:
                op["intr"] = r.randrange(60)
            ops.append(op)
        return {"cfg": cfg, "seed": seed, "ops": ops}

    def run(self, case):
        ctx = Ctx(case)
        run = (Compare if self.ID == "P26" else Create)(ctx, case["cfg"])
        for op in case["ops"]:
            run.step(op)
        return ctx.result()


def make(pid):
    return World(pid)
