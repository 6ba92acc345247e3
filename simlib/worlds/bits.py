"""P25: bit-packed representations lose nothing.

Histories over three kinds of packed state: the aggregate packed form of a class
(`x.packed`), classes with packed fields (`packed_tensor`), and raw byte streams
(`to_uint8`/`from_uint8`).  Classes are generated from the job's configuration: random
field layouts, widths 1..32, nesting, dtypes.  The packed value goes through row updates,
gathers, reshapes, restarts and interrupted calls while a numpy model keeps the logical
values; every accessor must agree with the model at every point.  The accelerator packing
kernel runs on the simulated device.
"""

from __future__ import annotations

import json

import jax
import jax.numpy as jnp
import numpy as np

from ..util import Violation, h64, rng
from .base import Ctx, make_jobs, np_tree
from .containers import COMPONENTS, DEV_ASSUME, GPU, TPU

UINT = ("uint8", "uint16", "uint32")
WIDTH = {"bool": 1, "uint8": 8, "uint16": 16, "uint32": 32, "int8": 7, "int16": 15, "int32": 31}
_CLASSES: dict = {}


def fail(kind, *msg):
    raise Violation(kind, " ".join(str(m) for m in msg))


# ------------------------------------------------------------------------- classes


def gen_fields(r, depth, packed):
    out = []
    for i in range(r.randint(1, 4)):
        name = "f%d" % i
        if not packed and depth and r.random() < .25:
            out.append([name, "nest", gen_fields(r, depth - 1, packed)])
            continue
        dt = r.choice(["bool", "uint8", "uint8", "uint16", "uint32", "uint32", "int8", "int16", "int32"])
        bits = 1 if dt == "bool" else r.randint(1, WIDTH[dt])
        if r.random() < .15:
            bits = WIDTH[dt]
        shape = r.choice([[], [], [3], [8], [11], [2, 3], [33], [1], [5, 7], [64], [2, 1, 3]])
        if packed:
            kind = "packed" if r.random() < .75 or (i == 0) else "plain"
            out.append([name, kind, dt, shape, bits])
        else:
            out.append([name, "leaf", dt, shape, bits])
    return out


def build(spec):
    """The class described by a spec: {"mode": agg|packed, "fields": [...], "how": bitpack=...}."""
    from xtructure import FieldDescriptor as FD
    from xtructure import xtructure_dataclass

    key = json.dumps(spec, sort_keys=True)
    if key in _CLASSES:
        return _CLASSES[key]
    name = "G%x" % h64(key)

    def mk(fields, nm, how):
        ann = {}
        for f in fields:
            if f[1] == "nest":
                ann[f[0]] = FD.scalar(dtype=mk(f[2], nm + f[0], "off"))
            elif f[1] == "packed":
                ann[f[0]] = FD.packed_tensor(unpacked_dtype=jnp.dtype(f[2]), shape=tuple(f[3]), packed_bits=f[4])
            else:
                bits = {"bits": f[4]} if f[1] == "leaf" else {}
                ann[f[0]] = (FD.tensor(dtype=jnp.dtype(f[2]), shape=tuple(f[3]), fill_value=0, **bits) if f[3]
                             else FD.scalar(dtype=jnp.dtype(f[2]), default=0, **bits))
        cls = type(nm, (), {"__annotations__": ann, "__module__": __name__})
        cls = xtructure_dataclass(cls, bitpack=how) if how else xtructure_dataclass(cls)
        globals()[nm] = cls  # importable by name: instances can be checkpointed
        return cls

    cls = mk(spec["fields"], name, spec["how"])
    globals()[name + "Packed"] = getattr(cls, "Packed", None)
    _CLASSES[key] = cls
    return cls


def leaves_of(spec):
    """[(path, dtype, shape, bits, kind)]"""
    out = []

    def walk(fields, pre):
        for f in fields:
            if f[1] == "nest":
                walk(f[2], pre + (f[0],))
            else:
                out.append((pre + (f[0],), np.dtype(f[2]), tuple(f[3]), f[4], f[1]))

    walk(spec["fields"], ())
    return out


def instance(cls, spec, arrays):
    """Build an instance from the model arrays (in leaves_of order)."""
    it = iter(arrays)

    def mk(c, fields):
        kw = {}
        for f in fields:
            if f[1] == "nest":
                nested = c.default().__getattribute__(f[0]).__class__
                kw[f[0]] = mk(nested, f[2])
            else:
                kw[f[0]] = jnp.asarray(next(it))
        return c(**kw)

    return mk(cls, spec["fields"])


def gen_values(seed, shape, dt, bits):
    r = np.random.RandomState(seed & 0x7FFFFFFF)
    top = (1 << bits) - 1
    style = r.randint(5)
    if style == 0:
        v = np.full(shape, top, np.uint64)
    elif style == 1:
        v = np.zeros(shape, np.uint64)
        if v.size:
            v.reshape(-1)[r.randint(v.size)] = top
    elif style == 2:
        v = np.uint64(1) << r.randint(0, bits, size=shape).astype(np.uint64)
    else:
        v = (r.randint(0, 2**31, size=shape).astype(np.uint64) * np.uint64(2) + r.randint(0, 2, size=shape).astype(np.uint64)) & np.uint64(top)
    return np.asarray(v).astype(dt)


def path_get(obj, path):
    for p in path:
        obj = getattr(obj, p)
    return obj


def default_dtype(bits):
    return np.dtype(bool if bits == 1 else np.uint8 if bits <= 8 else np.uint32)


def eq(what, got, want, dtype=None):
    got = np.asarray(got)
    if dtype is not None and got.dtype != dtype:
        fail("packed-dtype", f"{what}: dtype {got.dtype}, expected {dtype}")
    if got.shape != want.shape:
        fail("packed-shape", f"{what}: shape {got.shape}, expected {want.shape}")
    a, b = got.astype(np.int64), want.astype(np.int64)
    if not (a == b).all():
        bad = np.argwhere(a != b)[:3].tolist()
        fail("packed-value", f"{what}: differs at {bad}: got {[int(a[tuple(i)]) for i in bad]}, expected {[int(b[tuple(i)]) for i in bad]}")


# ------------------------------------------------------------------------- worlds

BATCHES = [[], [5], [3, 2], [1], [0]]


class Agg:
    OPS = ["store", "store", "part", "part", "part", "poke", "rows", "gather", "ckpt", "intr", "view", "reshape"]

    @staticmethod
    def gen(cfg, r):
        k = r.choice(Agg.OPS)
        op = {"op": k, "cls": r.randrange(len(cfg["specs"])), "mode": r.choice(cfg["modes"]), "seed": r.randrange(1 << 32),
              "batch": r.randrange(len(BATCHES)), "n": [r.randrange(1 << 16) for _ in range(4)]}
        return op

    @staticmethod
    def fresh(spec, batch, seed):
        return [gen_values(h64(seed, i), tuple(batch) + sh, dt, bits) for i, (p, dt, sh, bits, k) in enumerate(leaves_of(spec))]

    @staticmethod
    def start(ctx, cfg):
        return {}

    @staticmethod
    def pack(ctx, cls, spec, model, op):
        x = instance(cls, spec, model)
        batch = Agg.batch(spec, model)
        mode = op["mode"]
        if mode == "dev" and 0 in batch:
            mode = "api"
        if ctx.pallas and mode != "dev":
            mode = "dev"
        if ctx.pallas and 0 in batch:
            return None
        return ctx.lib(("pack", cls.__name__, batch), lambda v: v.packed, x, mode=mode, seed=op["seed"])

    @staticmethod
    def batch(spec, model):
        sh = leaves_of(spec)[0][2]
        s = model[0].shape
        return s[: len(s) - len(sh)]

    @staticmethod
    def verify(ctx, cls, spec, p, model, why, mode="jit"):
        batch = Agg.batch(spec, model)
        if tuple(p.shape.batch) != batch and batch:
            fail("packed-shape", f"{why}: packed batch {p.shape.batch}, expected {batch}")
        back = ctx.lib(("unpack", cls.__name__, batch), lambda v: v.unpack(dtype_policy="declared"), p, mode=mode)
        if type(back) is not cls:
            fail("packed-type", f"{why}: unpack gave a {type(back).__name__}")
        for (path, dt, sh, bits, k), want in zip(leaves_of(spec), model):
            eq(f"{why}: {'.'.join(path)} ({bits} bits)", path_get(back, path), want, dt)

    @staticmethod
    def run(ctx, cfg, op, state):
        spec = cfg["specs"][op["cls"]]
        cls = build(spec)
        k, mode, n = op["op"], op["mode"], op["n"]
        if mode == "dev" and k != "store":
            mode = "jit"
        cur = state.get(op["cls"])
        if k == "store" or cur is None:
            model = Agg.fresh(spec, BATCHES[op["batch"]], op["seed"])
            p = Agg.pack(ctx, cls, spec, model, op)
            if p is None:
                return state
            Agg.verify(ctx, cls, spec, p, model, "pack/unpack")
            state[op["cls"]] = (p, model)
            ctx.state(cls.__name__, h64(*[m.tobytes() for m in model]))
            return state
        p, model = cur
        lv = leaves_of(spec)
        batch = Agg.batch(spec, model)
        flat_n = int(np.prod(batch)) if batch else 1
        if k == "part":
            i = n[0] % len(lv)
            path, dt, sh, bits, _ = lv[i]
            nv = int(np.prod(sh)) if sh else 1
            vals = model[i].reshape(batch + (nv,))
            form = n[1] % 5
            pol = ("default", "declared")[n[2] % 2]
            if form == 0:
                ix, want = None, model[i]
            elif form == 1:
                ix = slice(n[3] % nv, None, 1 + n[1] // 5 % 3)
                want = vals[..., ix]
            elif form == 2:
                ix = slice(None, 1 + n[3] % nv)
                want = vals[..., ix]
            elif form == 3:
                ix = [n[3] % nv, (n[3] // 7) % nv, 0]
                want = vals[..., ix]
            else:
                ix = [slice(-1 - n[3] % nv, None), slice(None, nv + 3), slice(None, None, -1)][n[3] // 5 % 3]
                want = vals[..., ix]
            name = ".".join(path)
            got = ctx.lib(("part", cls.__name__, batch, name, repr(ix), pol), lambda v: v.unpack_field(name, indices=ix, dtype_policy=pol), p,
                          mode="api")
            eq(f"unpack_field({name}, {ix}, {pol})", got, want, dt if pol == "declared" else default_dtype(bits))
        elif k == "view":
            got = ctx.lib(("view", cls.__name__, batch), lambda v: v.unpacked, p, mode=mode)
            for (path, dt, sh, bits, _), want in zip(lv, model):
                eq(f"unpacked.{'.'.join(path)}", path_get(got, path), want, default_dtype(bits))
        elif k == "poke":
            # Change one field; every other field must come back unchanged.
            model = [np.array(x) for x in model]
            i = n[0] % len(lv)
            path, dt, sh, bits, _ = lv[i]
            model[i] = gen_values(op["seed"], model[i].shape, dt, bits)
            p = Agg.pack(ctx, cls, spec, model, op)
            if p is None:
                return state
            state[op["cls"]] = (p, model)
        elif k in ("rows", "gather", "reshape"):
            if not batch or 0 in batch:
                return state
            if k == "reshape":
                p = ctx.lib(("flat", cls.__name__, batch), lambda v: v.flatten(), p, mode=mode)
                model = [x.reshape((flat_n,) + x.shape[len(batch):]) for x in model]
            elif k == "gather":
                ix = [v % batch[0] for v in n]
                p = ctx.lib(("gather", cls.__name__, batch), lambda v, i: v[i], p, jnp.array(ix), mode=mode)
                model = [x[ix] for x in model]
            else:
                ix = [n[0] % batch[0]]
                sub = [gen_values(h64(op["seed"], j), (1,) + batch[1:] + sh, dt, bits) for j, (pa, dt, sh, bits, _) in enumerate(lv)]
                q = Agg.pack(ctx, cls, spec, sub, op)
                p = ctx.lib(("rows", cls.__name__, batch), lambda v, i, w: v.at[i].set(w), p, jnp.array(ix), q, mode=mode)
                model = [np.array(x) for x in model]
                for x, s in zip(model, sub):
                    x[ix] = s
            Agg.verify(ctx, cls, spec, p, model, k)
            state[op["cls"]] = (p, model)
            ctx.state(cls.__name__, h64(*[m.tobytes() for m in model]))
        elif k == "ckpt":
            p = ctx.restart(p)
            Agg.verify(ctx, cls, spec, p, model, "after a restart")
            state[op["cls"]] = (p, model)
        elif k == "intr":
            ctx.interrupted(("unpack",), lambda v: v.unpack(dtype_policy="declared"), p, at=1 + n[0] % 260)
            Agg.verify(ctx, cls, spec, p, model, "after an interrupted unpack", mode="api")
        return state

    @staticmethod
    def finish(ctx, cfg, state):
        for i, (p, model) in state.items():
            spec = cfg["specs"][i]
            Agg.verify(ctx, build(spec), spec, p, model, "at the end", mode="api")


class Fields:
    """Classes with packed fields stored in memory."""

    OPS = ["new", "newpart", "set", "set", "set", "rows", "gather", "ckpt", "intr", "flat", "cond"]

    gen = staticmethod(lambda cfg, r: {"op": r.choice(Fields.OPS), "cls": r.randrange(len(cfg["specs"])), "mode": r.choice(cfg["modes"]),
                                       "seed": r.randrange(1 << 32), "batch": r.randrange(len(BATCHES)), "n": [r.randrange(1 << 16) for _ in range(4)]})
    start = staticmethod(lambda ctx, cfg: {})

    @staticmethod
    def value(i, spec, batch, seed):
        path, dt, sh, bits, kind = leaves_of(spec)[i]
        return gen_values(h64(seed, i), tuple(batch) + sh, dt, bits)

    @staticmethod
    def verify(ctx, cls, spec, x, model, why, mode="jit"):
        lv = leaves_of(spec)
        batch = Agg.batch(spec, model)
        names = [p[0] for p, *_ in lv]

        def read(v):
            return [getattr(v, nm + "_unpacked") if kind == "packed" else getattr(v, nm) for nm, (_, _, _, _, kind) in zip(names, lv)]

        got = ctx.lib(("read", cls.__name__, batch), read, x, mode=mode)
        for (path, dt, sh, bits, kind), g, want in zip(lv, got, model):
            eq(f"{why}: {path[0]} ({kind}, {bits} bits)", g, want, dt)

    @staticmethod
    def run(ctx, cfg, op, state):
        spec = cfg["specs"][op["cls"]]
        cls = build(spec)
        k, mode, n = op["op"], op["mode"], op["n"]
        lv = leaves_of(spec)
        batch = tuple(BATCHES[op["batch"]])
        cur = state.get(op["cls"])
        if k in ("new", "newpart") or cur is None:
            model = [Fields.value(i, spec, batch, op["seed"]) for i in range(len(lv))]
            names = [p[0] for p, *_ in lv]
            if k == "newpart" and len(lv) > 1:
                drop = n[0] % len(lv)
                model[drop] = np.zeros_like(model[drop])
                names = [x for j, x in enumerate(names) if j != drop]
            args = {p[0]: jnp.asarray(v) for (p, *_), v in zip(lv, model) if p[0] in names}
            x = ctx.lib(("new", cls.__name__, batch, tuple(names)), lambda kw: cls.from_unpacked(shape=batch, **kw), args, mode=mode, seed=op["seed"])
        else:
            x, model = cur
            model = [np.array(v) for v in model]
            batch = Agg.batch(spec, model)
            if k == "set":
                pk = [i for i, l in enumerate(lv) if l[4] == "packed"]
                pick = sorted({pk[v % len(pk)] for v in n[: 1 + n[3] % 2]})
                for i in pick:
                    model[i] = Fields.value(i, spec, batch, op["seed"])
                args = {lv[i][0][0]: jnp.asarray(model[i]) for i in pick}
                x = ctx.lib(("set", cls.__name__, batch, tuple(pick)), lambda v, kw: v.set_unpacked(**kw), x, args, mode=mode, seed=op["seed"])
            elif k == "ckpt":
                x = ctx.restart(x)
            elif k == "intr":
                nm = [l[0][0] for l in lv if l[4] == "packed"]
                nm = nm[n[1] % len(nm)]
                i = [l[0][0] for l in lv].index(nm)
                new = Fields.value(i, spec, batch, op["seed"])
                ctx.interrupted(("set",), lambda v: v.set_unpacked(**{nm: jnp.asarray(new)}), x, at=1 + n[0] % 60)
            elif not batch or 0 in batch:
                return state
            elif k == "rows":
                ix = [n[0] % batch[0]]
                sub = [Fields.value(i, spec, (1,) + batch[1:], op["seed"]) for i in range(len(lv))]
                q = cls.from_unpacked(shape=(1,) + batch[1:], **{p[0]: jnp.asarray(v) for (p, *_), v in zip(lv, sub)})
                x = ctx.lib(("rows", cls.__name__, batch), lambda v, i, w: v.at[i].set(w), x, jnp.array(ix), q, mode=mode)
                for m, s in zip(model, sub):
                    m[ix] = s
            elif k == "cond":
                if len(batch) > 1:
                    return state
                at = [n[0] % batch[0], n[1] % batch[0], n[0] % batch[0]]
                cond = [bool(n[2] & 1), bool(n[2] & 2), bool(n[2] & 4)]
                sub = [Fields.value(i, spec, (3,), op["seed"]) for i in range(len(lv))]
                q = cls.from_unpacked(shape=(3,), **{p[0]: jnp.asarray(v) for (p, *_), v in zip(lv, sub)})
                x = ctx.lib(("cond", cls.__name__, batch), lambda v, i, c, w: v.at[i].set_as_condition(c, w), x, jnp.array(at), jnp.array(cond), q, mode=mode,
                            seed=op["seed"])
                for j in (2, 1, 0):
                    if cond[j]:
                        for m, s in zip(model, sub):
                            m[at[j]] = s[j]
            elif k == "gather":
                ix = [v % batch[0] for v in n]
                x = ctx.lib(("gather", cls.__name__, batch), lambda v, i: v[i], x, jnp.array(ix), mode=mode)
                model = [m[ix] for m in model]
            elif k == "flat":
                x = ctx.lib(("flat", cls.__name__, batch), lambda v: v.flatten(), x, mode=mode)
                model = [m.reshape((-1,) + m.shape[len(batch):]) for m in model]
        Fields.verify(ctx, cls, spec, x, model, k)
        state[op["cls"]] = (x, model)
        ctx.state(cls.__name__, h64(*[m.tobytes() for m in model]))
        return state

    @staticmethod
    def finish(ctx, cfg, state):
        for i, (x, model) in state.items():
            spec = cfg["specs"][i]
            Fields.verify(ctx, build(spec), spec, x, model, "at the end", mode="api")


class Raw:
    """Byte streams."""

    SHAPES = [[7], [64], [2, 5], [0], [1], [33], [3, 0], [129], []]

    @staticmethod
    def gen(cfg, r):
        bits = r.choice(cfg["bits"])
        dts = [d for d in ("bool", "uint8", "uint16", "uint32", "int32", "int16") if WIDTH[d] >= bits and (d != "bool" or bits == 1)]
        return {"op": "raw", "bits": bits, "dt": r.choice(dts), "shape": r.choice(Raw.SHAPES), "mode": r.choice(cfg["modes"]),
                "seed": r.randrange(1 << 32), "extra": r.choice([0, 0, 1])}

    start = staticmethod(lambda ctx, cfg: None)
    finish = staticmethod(lambda ctx, cfg, state: None)

    @staticmethod
    def run(ctx, cfg, op, state):
        from xtructure.core.xtructure_decorators.aggregate_bitpack.bitpack import from_uint8, packed_num_bytes, to_uint8

        shape, bits = tuple(op["shape"]), op["bits"]
        v = gen_values(op["seed"], shape, np.dtype(op["dt"]), bits)
        p = ctx.lib(("to", shape, bits, op["dt"]), lambda x: to_uint8(x, bits), jnp.asarray(v), mode=op["mode"], seed=op["seed"])
        if p.dtype != np.uint8 or p.ndim != 1 or p.shape[0] != packed_num_bytes(v.size, bits):
            fail("packed-size", f"{v.size} values of {bits} bits became {p.dtype}{p.shape}, announced {packed_num_bytes(v.size, bits)} bytes")
        if p.shape[0] > (v.size * bits + 7) // 8 + 31:
            fail("packed-size", f"{v.size} values of {bits} bits take {p.shape[0]} bytes")
        back = ctx.lib(("from", shape, bits, p.shape), lambda x: from_uint8(x, shape, bits), p, mode=op["mode"], seed=op["seed"])
        eq(f"from_uint8(to_uint8) {op['dt']}{shape} {bits} bits", back, v, default_dtype(bits))
        ctx.state("raw", h64(v.tobytes(), bits))
        return state


IMPL = {"agg": Agg, "fields": Fields, "raw": Raw}


def specs(seed, n, kind):
    r = rng("bits", seed, kind)
    out = []
    for _ in range(n):
        if kind == "agg":
            out.append({"mode": "agg", "fields": gen_fields(r, 2, False), "how": r.choice([None, "aggregate"])})
        else:
            out.append({"mode": "packed", "fields": gen_fields(r, 0, True), "how": r.choice([None, "field"])})
    return out


def variants(tier):
    q = tier == "quick"
    out = []
    for i in range(6 if q else 40):
        modes = (["api", "jit"], ["jit"], ["api", "dev"], ["dev", "jit"])[i % 4]
        out.append(({}, {"kind": "agg", "specs": specs(i, 2 if q else 3, "agg"), "modes": modes, "n": 14}))
    for i in range(4 if q else 24):
        be = GPU if i % 2 else TPU
        e = {**be, "XTRUCTURE_AGG_BITPACK_PACK_BACKEND": "pallas" if i % 2 else "auto",
             "XTRUCTURE_AGG_BITPACK_PACK_WORD_TILE": str((4, 1, 3, 2, 7)[i % 5])}
        out.append((e, {"kind": "agg", "specs": specs(100 + i, 2, "agg"), "modes": ["dev"], "n": 8, "runs": .5}))
    for i in range(4 if q else 30):
        out.append(({} if i % 3 else {"SIM_X64": "1"}, {"kind": "fields", "specs": specs(200 + i, 2 if q else 3, "fields"),
                                                        "modes": (["api", "jit"], ["jit"], ["dev", "api"])[i % 3], "n": 12}))
    for i in range(2 if q else 4):
        out.append(({}, {"kind": "raw", "bits": list(range(1 + i % 2, 33, 2)), "modes": ["api"] if i % 2 else ["jit", "api"], "n": 12, "runs": .5}))
    return out


class World:
    LEVEL = "exploration"
    TECHNIQUE = "deterministic simulation"
    COMPONENTS = COMPONENTS
    RULE = "a state counts once per distinct logical content of a packed value reached by a history"
    ASSUMPTIONS = ["values fit the declared number of bits", "signed fields hold non-negative values"] + DEV_ASSUME[:1]

    def __init__(self, pid):
        self.ID = pid

    def jobs(self, tier, seed):
        return make_jobs(variants(tier), 40 if tier == "quick" else 250, seed, self.ID)

    def gen(self, cfg, seed):
        r = rng("bits", seed)
        im = IMPL[cfg["kind"]]
        return {"cfg": cfg, "seed": seed, "ops": [im.gen(cfg, r) for _ in range(r.randint(3, cfg["n"]))]}

    def run(self, case):
        import os

        ctx = Ctx(case)
        ctx.pallas = os.environ.get("SIM_BACKEND") == "tpu" or os.environ.get("XTRUCTURE_AGG_BITPACK_PACK_BACKEND") == "pallas"
        cfg = case["cfg"]
        im = IMPL[cfg["kind"]]
        st = im.start(ctx, cfg)
        for op in case["ops"]:
            st = im.run(ctx, cfg, op, st)
        im.finish(ctx, cfg, st)
        return ctx.result()


def make(pid):
    return World(pid)
