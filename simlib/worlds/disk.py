"""Saving and loading on a simulated disk: P18, P19, P20, P23.

Every system call on the scratch directory goes through the simulator (simlib.disk), which fails
it, shortens it, stops the disk there (crash), or later forgets what was not synced
(power loss).  Several threads save and load the same path under a seeded scheduler that may
preempt them at every system call."""

from __future__ import annotations

import gc
import os

import jax
import jax.numpy as jnp
import numpy as np

from ..classes import CLASSES, Pool
from ..util import Skip, Violation, rng
from .base import Ctx, make_jobs

ERRS = ["EIO", "ENOSPC", "EDQUOT", "EINTR", "EACCES", "EMFILE", "EROFS", "EFBIG"]
_VALS: dict = {}
_TOTAL: dict = {}
SETS = {
    "a": [("IoBits", (3,)), ("IoBitsNest", (5,)), ("IoBitsNest", (2, 3)), ("Nested", ()), ("WideU8", (40,)), ("IoBits", (16,))],
    "b": [("U32", (7,)), ("U32", (8,)), ("U32", (64,)), ("NestedArr", (3,)), ("F32", (0,)), ("Bits", (9,))],
    "c": [("IoBits", (2, 2)), ("Packed", (5,)), ("WideF32", (300,)), ("WideF32", (301,)), ("Bools", (11,)), ("I8Pair", (1,))],
    "d": [("BitsWide", (4,)), ("WideU32", (33,)), ("IoBitsNest", ()), ("Inner", (6,)), ("U32", ()), ("IoBits", (130,))],
    # incompressible: files of many blocks
    "e": [("U32", (20000,)), ("U32", (3,)), ("U32", (70000,)), ("IoBits", (4,)), ("U32", (300000,))],
}
ALLCLS = ["U32", "Pair32", "I8Pair", "Inner", "Nested", "NestedArr", "F32", "WideU8", "WideF32", "WideU32", "Bools", "Bits",
          "BitsWide", "IoBits", "IoBitsNest", "Packed", "Half", "Exotic"]
LARGE = [(300,), (17, 20), (2049,), (33000,), (3, 22000), (66000,)]  # past the limits of 8- and 16-bit counters
SHAPES = [(), (1,), (5,), (8,), (0,), (3, 2), (2, 1, 4), (33,)]


def make_value(cls, shape, seed):
    k = (cls, tuple(shape), seed)
    if k not in _VALS:
        n = int(np.prod(shape)) if shape else 1
        p = Pool(cls, min(max(n, 2), 12), seed)
        r = rng("value", k)
        ids = [r.randrange(p.n) for _ in range(n)]
        rows = [x[np.asarray(ids, dtype=np.int64)] for x in p.leaves]
        if r.random() < 0.5:
            rows = [_special(x, r) for x in rows]
        if cls == "U32" and n >= 20000:
            rows = [np.frombuffer(r.randbytes(x.nbytes), x.dtype).reshape(x.shape) for x in rows]
        leaves = [jnp.asarray(x.reshape(tuple(shape) + x.shape[1:])) for x in rows]
        _VALS[k] = jax.tree_util.tree_unflatten(p.tree, leaves)
    return _VALS[k]


def _special(x, r):
    """Bit patterns that only an exact copy preserves."""
    if x.dtype.kind != "f" or not x.size or x.dtype.itemsize < 4:
        return x
    y = np.array(x)
    f = y.reshape(-1)
    for j in range(f.size):
        if r.random() < 0.4:
            f[j] = r.choice([-0.0, np.inf, -np.inf, 1e-42, 3.4e38])
    return y


def same(a, b):
    if type(a) is not type(b):
        return f"class {type(a).__name__}, saved as {type(b).__name__}"
    fa = jax.tree_util.tree_flatten_with_path(a)[0]
    fb = jax.tree_util.tree_flatten_with_path(b)[0]
    if len(fa) != len(fb):
        return f"{len(fa)} arrays, saved with {len(fb)}"
    for (p, x), (_, y) in zip(fa, fb):
        x, y = np.asarray(x), np.asarray(y)
        name = jax.tree_util.keystr(p)
        if x.dtype != y.dtype or x.shape != y.shape:
            return f"{name}: {x.dtype}{x.shape}, saved as {y.dtype}{y.shape}"
        if x.tobytes() != y.tobytes():
            return f"{name}: content differs"
    return None


class _Clock:
    """The clock zip archives are stamped with."""

    def __init__(self, real):
        self.real, self.now = real, 1.7e9

    def __getattr__(self, k):
        return getattr(self.real, k)

    def time(self):
        self.now += 1.0
        return self.now

    def localtime(self, t=None):
        return self.real.gmtime(self.now if t is None else t)


_clock = None


def clock():
    global _clock
    if _clock is None:
        import time
        import zipfile

        _clock = _Clock(time)
        zipfile.time = _clock
    return _clock


def total_ops(disk, val, packed, key):
    """Number of system calls of one undisturbed save."""
    if key not in _TOTAL:
        from xtructure.io.io import save

        n = [0]

        def count(op, a, b, arg):
            n[0] += 1
            return 0

        old, disk.plan = disk.plan, count
        p = disk.path("dry", "x.npz")
        try:
            save(p, val, packed=packed)
        except Exception as e:
            raise Violation("raised", f"save: {type(e).__name__}: {str(e)[:400]}") from e
        disk.plan = old
        _TOTAL[key] = n[0]
    return _TOTAL[key]


# --------------------------------------------------------------------------- P18


def gen_fault(r, what="save"):
    k = r.random()
    where = {"at": round(r.random(), 4)}
    if r.random() < 0.45:
        where["tail"] = r.randrange(6)
    if k < 0.42:
        return {"kind": "crash", "torn": r.choice([0, round(r.random(), 3)]), **where}
    if k < 0.62:
        return {"kind": "err", "errno": r.choice(ERRS), **where}
    if k < 0.74:
        return {"kind": "full", "torn": r.choice([0, round(r.random(), 3)]), **where}
    if k < 0.84:
        return {"kind": "short", "torn": round(r.random(), 3), **where}
    if k < 0.88:
        return {"kind": "short_everywhere", "n": r.choice([2, 7, 61, 500])}
    return {"kind": "intr", "line": 1 + int(140 * r.random() ** 1.3), "exc": r.choice(["KeyboardInterrupt", "MemoryError"])}


def gen18(cfg, seed):
    r = rng("P18", seed)
    vals = SETS[cfg["set"]]
    ops = []
    for _ in range(r.randrange(8, 22)):
        k = r.random()
        if k < 0.78:
            op = {"op": "save", "v": r.randrange(len(vals)), "packed": int(r.random() < .6), "path": r.randrange(2)}
            if r.random() < 0.7:
                op["fault"] = gen_fault(r)
            if op.get("fault", {}).get("kind") == "crash" and r.random() < .5:
                op["power"] = 1
            ops.append(op)
        elif k < 0.86:
            ops.append({"op": "power"})
        elif k < 0.93:
            ops.append({"op": "clock", "t": r.choice([0.0, 3.2e8, 1.7e9, 4.1e9, 5.0e9])})
        else:
            ops.append({"op": "mode", "path": r.randrange(2), "m": r.choice([0o600, 0o644, 0o640])})
    return {"cfg": cfg, "seed": seed, "ops": ops}


def run18(case):
    from xtructure.io.io import load, save

    from ..disk import NAMES, Disk, Fault

    cfg = case["cfg"]
    ctx = Ctx(case)
    ck = clock()
    ck.now = 1.7e9
    vals = [make_value(c, s, cfg.get("vseed", 3)) for c, s in SETS[cfg["set"]]]
    r = rng("power", case["seed"])
    disk = Disk()
    try:
        paths = [disk.path("sub", "a.npz"), disk.path("b.npz")]
        allowed = [{None}, {None}]   # what the path may hold now
        epoch = [{None}, {None}]     # what it may hold after a power loss

        def look(i, after):
            disk.plan = None
            try:
                got = load(paths[i])
            except FileNotFoundError:
                got = None
            except Exception as e:
                raise Violation("unreadable", f"after {after}: load: {type(e).__name__}: {str(e)[:300]}") from e
            for v in allowed[i]:
                if (v is None and got is None) or (v is not None and got is not None and same(got, vals[v]) is None):
                    allowed[i] = {v}
                    ctx.state("file", i, v, len(epoch[i]))
                    return
            raise Violation("wrong-content", f"after {after}: the file holds "
                            f"{'nothing' if got is None else type(got).__name__ + str(np.shape(jax.tree_util.tree_leaves(got)[0]))}, "
                            f"allowed: {[None if v is None else SETS[cfg['set']][v] for v in sorted(allowed[i], key=str)]}")

        for t, op in enumerate(case["ops"]):
            k = op["op"]
            what = f"step {t} {k} {op.get('fault', '')}"
            ctx.steps += 1
            ctx.ops[k] += 1
            if k == "clock":
                ck.now = op["t"]
                ctx.faults["clock_jump"] += 1
                continue
            if k == "mode":
                if allowed[op["path"]] != {None}:
                    disk.plan = None
                    os.chmod(paths[op["path"]], op["m"])
                continue
            if k == "power":
                _power(ctx, disk, r, allowed, epoch)
                for i in (0, 1):
                    look(i, what)
                    epoch[i] = set(allowed[i])
                continue
            i, v, packed = op["path"], op["v"], bool(op["packed"])
            f = op.get("fault")
            fault = Fault(f if f and f["kind"] != "intr" else None,
                          total_ops(disk, vals[v], packed, (cfg["set"], cfg.get("vseed", 3), v, packed)))
            disk.plan = fault
            raised = None
            if f and f["kind"] == "intr":
                exc = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[f["exc"]]
                raised = ctx.interrupted("save", lambda: save(paths[i], vals[v], packed=packed), at=f["line"], exc=exc)
            else:
                try:
                    save(paths[i], vals[v], packed=packed)
                except Exception as e:
                    raised = e
            disk.plan = None
            ctx.steps += fault.n
            for n, c in fault.fired.items():
                ctx.faults[n] += c
                ctx.state("fault", n, fault.at, cfg["set"], v, packed)
            epoch[i].add(v)
            harmless = not fault.fired or set(fault.fired) <= {"short_write", "short_read"}
            if f and f["kind"] == "intr":
                allowed[i] = allowed[i] | {v} if raised else {v}
            elif raised is None and not fault.frozen:
                allowed[i] = {v}
            elif harmless and not (ck.now < 3.16e8 or ck.now > 4.354e9):
                raise Violation("raised", f"{what}: save: {type(raised).__name__}: {str(raised)[:300]}")
            else:
                allowed[i] = allowed[i] | {v}
            if op.get("power"):
                _power(ctx, disk, r, allowed, epoch)
                for j in (0, 1):
                    look(j, what + " and power loss")
                    epoch[j] = set(allowed[j])
            else:
                look(i, what)
            bad = disk.check_model()
            if bad:
                raise Skip("disk model: " + bad)
        return ctx.result()
    finally:
        disk.close()


def _power(ctx, disk, r, allowed, epoch):
    ctx.faults["power_loss"] += 1
    for k, n in disk.power_loss(r).items():
        ctx.faults[k] += n
    for i in range(len(allowed)):
        allowed[i] = set(epoch[i]) | allowed[i]


# --------------------------------------------------------------------------- P19


def gen19(cfg, seed):
    r = rng("P19", seed)
    n = len(SETS[cfg["set"]])
    ops = []
    for _ in range(r.randrange(4, 8)):
        v, packed = r.randrange(n), int(r.random() < .6)
        for _ in range(12):
            k = r.random()
            op = {"op": "load", "v": v, "packed": packed, "at": round(r.random(), 6)}
            if k < 0.34:
                op.update(kind="flip", bit=r.randrange(8))
                if r.random() < .5:
                    op["tail"] = 1
            elif k < 0.5:
                op.update(kind="truncate")
            elif k < 0.6:
                op.update(kind="zero", n=r.choice([1, 16, 64, 512]))
            elif k < 0.66:
                op.update(kind="byte", val=r.randrange(256))
                op["tail"] = int(r.random() < .6)
            elif k < 0.72:
                op.update(kind="swap", at2=round(r.random(), 6), n=r.choice([1, 8, 64]))
            elif k < 0.78:
                op.update(kind="mix", v2=r.randrange(n))
            elif k < 0.84:
                op.update(kind="append", n=r.choice([1, 22, 600]))
            elif k < 0.88:
                op.update(kind="names", to=r.randrange(1 << 16))
            elif k < 0.93:
                op.update(kind="read", fault={"kind": "err", "errno": r.choice(["EIO", "EINTR", "ENOMEM", "EAGAIN"]), "at": round(r.random(), 4)})
            else:
                op.update(kind="read", fault={"kind": "short_everywhere", "n": r.choice([2, 7, 61])})
            ops.append(op)
    return {"cfg": cfg, "seed": seed, "ops": ops}


def run19(case):
    from xtructure.io.io import load, save

    from ..disk import Disk, Fault

    cfg = case["cfg"]
    ctx = Ctx(case)
    clock().now = 1.7e9
    vals = [make_value(c, s, cfg.get("vseed", 3)) for c, s in SETS[cfg["set"]]]
    disk = Disk()
    files = {}
    path = disk.path("a.npz")
    try:
        def raw(v, packed):
            if (v, packed) not in files:
                disk.plan = None
                try:
                    save(path, vals[v], packed=bool(packed))
                    got = load(path)
                except Exception as e:
                    raise Violation("raised", f"{type(e).__name__}: {str(e)[:300]}") from e
                bad = same(got, vals[v])
                if bad:
                    raise Violation("wrong-content", f"undamaged file: {bad}")
                with open(path, "rb") as f:
                    files[v, packed] = f.read()
            return files[v, packed]

        for t, op in enumerate(case["ops"]):
            data = bytearray(raw(op["v"], op["packed"]))
            n = len(data)
            lo = max(0, data.find(b"PK\x01\x02")) if op.get("tail") else 0
            at = min(lo + int(op["at"] * (n - lo)), n - 1)
            k = op["kind"]
            fault = None
            if k == "flip":
                data[at] ^= 1 << op["bit"]
            elif k == "truncate":
                del data[at:]
            elif k == "zero":
                s = at - at % op["n"]
                data[s:s + op["n"]] = b"\0" * len(data[s:s + op["n"]])
            elif k == "byte":
                data[at] = op["val"]
            elif k == "swap":
                b = min(int(op["at2"] * n), n - 1)
                m = min(op["n"], n - max(at, b), abs(at - b)) or 0
                data[at:at + m], data[b:b + m] = data[b:b + m], data[at:at + m]
            elif k == "mix":  # the head of one file, the tail of another: an old copy showing through
                data = data[:at] + raw(op["v2"], op["packed"])[at:]
            elif k == "append":
                data += bytes((i * 37 + op["n"]) % 256 for i in range(op["n"]))
            elif k == "names":  # damage inside a member name, in both directories
                p = data.find(b".npy", int(op["at"] * n))
                if p > 0:
                    q = p - 1 - op["to"] % 6
                    old = bytes(data[p - 6:p + 4])
                    data[q] ^= 1 << (op["to"] >> 8) % 8
                    new = bytes(data[p - 6:p + 4])
                    if op["to"] & 64:
                        data = bytearray(bytes(data).replace(old, new))
            else:
                fault = Fault(op["fault"], 14)
            disk.plan = None
            with open(path, "wb") as f:
                f.write(bytes(data))
            got = err = None
            gc.collect()  # files left open by a failed load are closed here, not at some later operation
            disk.plan = fault
            ctx.steps += 1
            ctx.ops["load"] += 1
            try:
                got, err = load(path), None
            except Exception as e:
                got, err = None, e
            disk.plan = None
            changed = bytes(data) != files[op["v"], op["packed"]]
            if fault is None and changed:
                ctx.faults[k] += 1
            elif fault is not None:
                for nme, c in fault.fired.items():
                    ctx.faults[nme] += c
            ctx.state(k, at // 16, op["v"], op["packed"], type(err).__name__)
            if err is not None:
                ctx.extra["damage_reported"] += 1
                only_short = fault is not None and set(fault.fired) <= {"short_read"}
                if (fault is None and not changed) or only_short:
                    raise Violation("raised", f"{op}: load: {type(err).__name__}: {str(err)[:300]}")
                continue
            ok = [v for v in ({op["v"], op["v2"]} if k == "mix" else {op["v"]}) if same(got, vals[v]) is None]
            if not ok:
                raise Violation("silent-damage", f"{op}: load returned a value without complaint, but {same(got, vals[op['v']])}")
            ctx.extra["damage_harmless"] += 1
        return ctx.result()
    finally:
        disk.close()


# --------------------------------------------------------------------------- P20


def gen20(cfg, seed):
    r = rng("P20", seed)
    ops = []
    for _ in range(r.randrange(8, 16)):
        ops.append({"op": "save", "cls": r.choice(cfg["classes"]), "shape": list(r.choice(LARGE if r.random() < .06 else SHAPES)), "vseed": r.randrange(4),
                    "packed": int(r.random() < .6), "path": r.randrange(3), "via": r.choice(["method", "io", "method"]),
                    "node": int(r.random() < .35), "np": int(r.random() < .15), "abs": int(r.random() < .6)})
    return {"cfg": cfg, "seed": seed, "ops": ops}


def run20(case):
    from xtructure.io.io import load, save

    from ..disk import Disk
    from ..node import node

    ctx = Ctx(case)
    clock().now = 1.7e9
    disk = Disk()
    cwd = os.getcwd()
    held = {}
    names = [("plain.npz",), ("deep", "er", "naïve name.npz"), ("dots.v1.npz",)]
    try:
        os.chdir(disk.root)
        for t, op in enumerate(case["ops"]):
            x = make_value(op["cls"], op["shape"], op["vseed"])
            want = x
            if op["np"]:
                x = jax.tree_util.tree_map(np.asarray, x)
            rel = os.path.join(*names[op["path"]])
            p = disk.path(rel) if op["abs"] else rel
            what = f"step {t} {op['cls']}{tuple(op['shape'])} packed={op['packed']}"
            ctx.steps += 1
            ctx.ops["save:" + op["via"]] += 1
            try:
                if op["via"] == "method":
                    x.save(p, packed=bool(op["packed"]))
                else:
                    save(p, x, packed=bool(op["packed"]))
                got = CLASSES[op["cls"]].load(p) if op["via"] == "method" else load(p)
            except Exception as e:
                raise Violation("raised", f"{what}: {type(e).__name__}: {str(e)[:300]}") from e
            bad = same(got, want)
            if bad:
                raise Violation("wrong-content", f"{what}: {bad}")
            again = got
            bad = same(jax.tree_util.tree_map(lambda a: a, again), want)
            if bad:
                raise Violation("wrong-content", f"{what}: {bad}")
            held[op["path"]] = (op, want)
            ctx.state(op["cls"], op["shape"], op["packed"], op["vseed"])
            other = [c for c in CLASSES if c != op["cls"]][t % 7]
            try:
                CLASSES[other].load(p)
            except Exception:
                pass
            else:
                raise Violation("wrong-class", f"{what}: {other}.load accepted a file holding {op['cls']}")
            if op["node"]:
                ctx.faults["other_process"] += 1
                reply = node().call("load_and_resave", path=disk.path(rel), out=disk.path("node.npz"), packed=bool(op["packed"]))
                if reply["error"]:
                    raise Violation("raised", f"{what}, loaded in another process: {reply['error']}")
                bad = same(load(disk.path("node.npz")), want)
                if bad:
                    raise Violation("wrong-content", f"{what}, saved again by another process: {bad}")
        for i, (op, want) in held.items():
            bad = same(load(disk.path(*names[i])), want)
            if bad:
                raise Violation("wrong-content", f"at the end, {op['cls']}{tuple(op['shape'])}: {bad}")
        return ctx.result()
    finally:
        os.chdir(cwd)
        disk.close()


# --------------------------------------------------------------------------- P23


def gen23(cfg, seed):
    from ..sched import gen_gaps

    r = rng("P23", seed)
    nth = r.choice([2, 2, 3, 4])
    prog = []
    n = len(SETS[cfg["set"]])
    for k in range(nth):
        ops = []
        for _ in range(r.choice([1, 2, 2, 3])):
            if r.random() < 0.6:
                ops.append({"op": "save", "v": r.randrange(n), "packed": int(r.random() < .6)})
                if r.random() < 0.15:
                    ops[-1]["die"] = round(r.random(), 3)
            else:
                ops.append({"op": "load"})
        prog.append(ops)
    return {"cfg": cfg, "seed": seed, "threads": prog, "pre": r.choice([None, r.randrange(n)]),
            "gaps": gen_gaps(r, r.choice([3, 10, 25]), r.choice([1, 2, 4, 8, 16])), "first": r.randrange(nth)}


def run23(case):
    from xtructure.io.io import load, save

    from ..disk import Disk, Fault, NAMES
    from ..sched import Killed, Sched, linearizable

    cfg = case["cfg"]
    ctx = Ctx(case)
    clock().now = 1.7e9
    vals = [make_value(c, s, cfg.get("vseed", 3)) for c, s in SETS[cfg["set"]]]
    disk = Disk()
    hist = []
    try:
        path = disk.path("shared.npz")
        for ops in case["threads"]:      # warm up outside the schedule
            for op in ops:
                if op["op"] == "save":
                    total_ops(disk, vals[op["v"]], bool(op["packed"]), (cfg["set"], cfg.get("vseed", 3), op["v"], bool(op["packed"])))
        disk.plan = None
        if case["pre"] is not None:
            save(path, vals[case["pre"]])
            load(path)
        s = Sched(case["gaps"])
        now = [0]
        plans = {}

        def tick():
            now[0] += 1
            return now[0]

        def plan(op, a, b, arg):
            s.point(NAMES.get(op))
            f = plans.get(s.me())
            return f(op, a, b, arg) if f else 0

        def worker(k, ops):
            def go():
                for op in ops:
                    rec = [tick(), None, (op["op"], op.get("v"))]
                    hist.append(rec)
                    if op["op"] == "save":
                        dies = op.get("die")
                        if dies is not None:
                            f = {"kind": "crash", "at": dies, "torn": .5}
                            plans[k] = Fault(f, _TOTAL[cfg["set"], cfg.get("vseed", 3), op["v"], bool(op["packed"])])
                        try:
                            save(path, vals[op["v"]], packed=bool(op["packed"]))
                        except Exception as e:
                            if dies is not None:
                                raise Killed() from None
                            raise Violation("raised", f"save in thread {k}: {type(e).__name__}: {str(e)[:300]}") from e
                        if dies is not None:
                            if plans[k].frozen:
                                raise Killed()
                            plans[k] = None
                    else:
                        try:
                            got = load(path)
                        except FileNotFoundError:
                            got = None
                        except Exception as e:
                            raise Violation("unreadable", f"load in thread {k}: {type(e).__name__}: {str(e)[:300]}") from e
                        rec[2] = ("load", _which(got, vals))
                        if rec[2][1] == "?":
                            raise Violation("wrong-content", f"load in thread {k} returned a value nobody saved")
                    rec[1] = tick()
            return go

        for k, ops in enumerate(case["threads"]):
            s.add(worker(k, ops))
        disk.plan = plan
        s.run(case["first"])
        disk.plan = None
        ctx.steps += s.steps
        ctx.faults["preemptions"] += s.switches
        for f in plans.values():
            if f:
                for nme, c in f.fired.items():
                    ctx.faults[nme] += c
        for w in s.workers:
            if isinstance(w.error, Killed):
                ctx.faults["thread_died"] += 1
            elif w.error is not None:
                raise w.error
        for rec in hist:
            ctx.ops[rec[2][0]] += 1
        try:
            last = _which(load(path), vals)
        except FileNotFoundError:
            last = None
        except Exception as e:
            raise Violation("unreadable", f"at the end: load: {type(e).__name__}: {str(e)[:300]}") from e
        h = [tuple(x) for x in hist] + [(now[0] + 1, now[0] + 2, ("load", last))]

        def step(state, op):
            if op[0] == "save":
                return (op[1],)
            return (state,) if op[1] == state else None

        # equal values cannot be told apart
        if not linearizable(h, case["pre"], step):
            raise Violation("not-linearizable", f"no order of the operations explains {h}, initial {case['pre']}")
        ctx.state(tuple(s.trace))
        ctx.extra["schedules"] += 1
        return ctx.result()
    finally:
        disk.plan = None
        disk.close()


def _which(got, vals):
    if got is None:
        return None
    for i, v in enumerate(vals):
        if same(got, v) is None:
            return i
    return "?"


def shrink23(case):
    g = case["gaps"]
    for i in range(len(g)):
        yield dict(case, gaps=g[:i] + g[i + 1:])
    for k, ops in enumerate(case["threads"]):
        for i in range(len(ops)):
            th = [list(o) for o in case["threads"]]
            th[k] = ops[:i] + ops[i + 1:]
            yield dict(case, threads=th)
    for i, (a, b) in enumerate(g):
        if a > 1:
            yield dict(case, gaps=g[:i] + [[a // 2, b]] + g[i + 1:])


class World:
    LEVEL = "exploration"
    COMPONENTS = {
        "real": ["xtructure.io save and load, traced from /repo", "numpy .npz reader and writer, zipfile, Python I/O stack",
                 "the scratch file system (tmpfs or disk) for calls that pass"],
        "simulated": ["every system call on the scratch directory: errors, short transfers, full disk, crash point",
                      "page cache and directory journal (what a power loss may forget)", "clock of the archive writer",
                      "thread schedule at system-call granularity (P23)"],
    }
    ASSUMPTIONS = [
        "paths end in .npz", "a directory change reaches the disk in order; data reaches it at the latest when fsync of that file returns",
        "bit-packed fields hold values that fit their declared bits",
    ]
    RULE = "a state counts once per distinct (file content, fault and crash point, damaged place or schedule) reached"
    NEEDS_SHRINK = ("P23",)

    def __init__(self, pid):
        self.ID = pid
        if pid == "P23":
            self.shrink = shrink23

    def prepare(self, tier):
        from .. import disk

        disk.build()

    def jobs(self, tier, seed):
        from ..disk import SO

        q = tier == "quick"
        env = {"LD_PRELOAD": SO}
        out = []
        if self.ID == "P20":
            for i in range(8):
                cl = ALLCLS[i % 4::4] + ["IoBits", "IoBitsNest"]
                out.append((dict(env, **({"SIM_X64": "1"} if i == 7 else {})), {"classes": cl}))
        else:
            for i, st in enumerate("abcdabcd" + ("" if self.ID == "P23" else "e")):
                out.append((env, {"set": st, "vseed": 3 + i // 4, **({"runs": .4} if st == "e" else {})}))
        n = {"P18": 60, "P19": 60, "P20": 30, "P23": 90}[self.ID]
        return make_jobs(out, n if q else n * 12, seed, self.ID)

    def gen(self, cfg, seed):
        return {"P18": gen18, "P19": gen19, "P20": gen20, "P23": gen23}[self.ID](cfg, seed)

    def run(self, case):
        gc.unfreeze()
        gc.collect()
        gc.freeze()
        gc.disable()  # finalizers close files: they run at points of our choosing
        try:
            return {"P18": run18, "P19": run19, "P20": run20, "P23": run23}[self.ID](case)
        finally:
            gc.enable()


def make(pid):
    return World(pid)
