"""Containers handed from process to process (P15) and between execution modes (P16).

P15: a client keeps versions of its containers as bytes.  Each operation is a message to one
of several worker processes (own interpreter, own PYTHONHASHSEED, cold or warm caches), which
restores the container, runs the operation and sends the result back as bytes.  Messages are
duplicated, answers are lost and the request is sent again, workers crash before, during and
after a message and come back empty, and late messages work on old versions.

P16: one short program, run from one starting container, must give the same bytes however it
is executed: step by step, with each step compiled, as one lax.scan, with jit disabled, in lock step
with another program under vmap, with a checkpoint in the middle, and in another process
that has done nothing else or something else before.
"""

from __future__ import annotations

import pickle

import jax
import jax.numpy as jnp
import numpy as np

from ..util import Skip, Violation, rng
from .base import Ctx, make_jobs, np_tree
from .containers import COMPONENTS, CPU_ASSUME, hp, qu, st, tb
from .hist import L, adapter

NODES = {"w0": "101", "w1": "202"}


def fail(kind, *msg):
    raise Violation(kind, " ".join(str(m) for m in msg))


def look(v):
    """Read what instances compute on demand and remember."""
    if getattr(type(v), "is_xtructed", False):
        str(v.shape), str(v.dtype), str(v.structured_type), v.ndim  # noqa: B018
    for f in getattr(type(v), "__dataclass_fields__", ()):
        look(getattr(v, f))


def dumps(obj, host):
    try:
        look(obj)
        return pickle.dumps(jax.tree_util.tree_map(np.asarray, obj) if host else obj)
    except Exception as e:
        raise Violation("raised", f"pickling: {type(e).__name__}: {str(e)[:300]}") from e


def leaves(t):
    return [(x.dtype.name, x.shape, x.tobytes()) for x in np_tree(t)]


# ------------------------------------------------------------------ in the other process


def serve(what, cfg, **kw):
    a = adapter(cfg)
    ctx = Ctx({})
    try:
        if what == "build":
            obj, model = a.build(ctx)
            return {"obj": dumps(obj, kw["host"]), "model": model}
        if what == "apply":
            obj = pickle.loads(kw["obj"])
            res = a.apply(ctx, kw["op"], obj, kw["model"])
            if res is None:
                return {"obj": None}
            return {"obj": dumps(res[0], kw["host"]), "model": res[1]}
        if what == "program":
            return {"out": program(a, pickle.loads(kw["obj"]), kw["prog"], kw["how"])}
        raise ValueError(what)
    except Violation as v:
        return {"violation": (v.kind, v.detail)}
    except Skip as s:
        return {"skip": str(s)}


def program(a, obj, prog, how, ctx=None):
    """The leaves of everything a program returns, and of the container it leaves behind."""
    xs = a.micro_xs(prog)

    def row(t):
        return jax.tree_util.tree_map(lambda v: v[t], xs)

    ctx = ctx or Ctx({})
    if how in ("steps", "jitsteps", "ckpt", "nojit"):
        ys = []

        def go(o):
            for t in range(L):
                o, y = ctx.lib(a.fid("micro"), a.micro_step, o, row(t), mode="api" if how in ("steps", "nojit") else "jit")
                ys.append(y)
                if how == "ckpt" and t in (3, 7):
                    o = ctx.restart(o)
            return o

        if how == "nojit":
            with jax.disable_jit():
                obj = go(obj)
        else:
            obj = go(obj)
        ys = jax.tree_util.tree_map(lambda *v: jnp.stack(v), *ys)
    elif how == "vscan":
        both = jax.tree_util.tree_map(lambda x: jnp.stack([x, x]), obj)
        rev = a.micro_xs([tuple(p) for p in prog[:1]] + [prog[-1]] * (L - 1))
        xs2 = jax.tree_util.tree_map(lambda p, q: jnp.stack([p, q]), xs, rev)
        obj, ys = ctx.lib(a.fid("vscan", 2), jax.vmap(a.scan_fn()), both, xs2, mode="jit")
        obj, ys = jax.tree_util.tree_map(lambda x: x[0], (obj, ys))
    else:
        obj, ys = ctx.lib(a.fid("scan"), a.scan_fn(), obj, xs, mode="jit" if how == "scan" else "api")
    return leaves(ys), leaves(obj)


# ------------------------------------------------------------------ the client


def ask(ctx, name, what, post_first=False, **kw):
    from ..node import node

    nd = node(name, NODES[name])
    if post_first:
        nd.post("history_step", what=what, **kw)
        nd.kill()
    ctx.ops[f"message:{what}"] += 1
    ctx.steps += 1
    r = nd.call("history_step", what=what, **kw)
    if r.get("error"):
        fail("raised", f"in process {name}: {r['error']}")
    if r.get("violation"):
        fail(r["violation"][0], f"in process {name}: {r['violation'][1]}")
    if r.get("skip"):
        raise Skip(r["skip"])
    return r


def crash(ctx, name):
    from ..node import node

    nd = node(name, NODES[name])
    if nd.proc is not None:
        nd.kill()
    ctx.faults["node_crash"] += 1


class Handoff:
    @staticmethod
    def gen(cfg, r):
        ads = [adapter(c) for c in cfg["systems"]]
        ops = []
        for _ in range(r.randint(8, 20)):
            s = r.randrange(len(ads))
            op = ads[s].gen(r)
            k = r.random()
            fault = "none"
            if k < .16:
                fault = "duplicate"
            elif k < .26:
                fault = "answer_lost"
            elif k < .26 + cfg["p_crash"]:
                fault = r.choice(["crash_before", "crash_during", "crash_after"])
            op.update(sys=s, src=-1 if r.random() < .8 else r.randrange(1 << 16), seed=r.randrange(1 << 32),
                      mode=r.choice(["api", "api", "jit"]), node=r.randrange(2), fault=fault, host=r.random() < .5)
            ops.append(op)
        return ops

    @staticmethod
    def run(ctx, cfg, case):
        ads = [adapter(c) for c in cfg["systems"]]
        vers, tip = [], []
        for k, (a, c) in enumerate(zip(ads, cfg["systems"])):
            b = ask(ctx, f"w{k % 2}", "build", cfg=c, host=False)
            vers.append([(b["obj"], b["model"])])
            tip.append(0)
        for op in case["ops"]:
            s = op["sys"] % len(ads)
            i = tip[s] if op["src"] < 0 else op["src"] % len(vers[s])
            raw, model = vers[s][i]
            w, other = f"w{op['node']}", f"w{1 - op['node']}"
            kw = dict(cfg=cfg["systems"][s], op=op, obj=raw, model=model, host=op["host"])
            f = op["fault"]
            if f == "crash_before":
                crash(ctx, w)
            if f == "crash_during":
                ctx.faults["node_crash"] += 1
            r = ask(ctx, w, "apply", post_first=f == "crash_during", **kw)
            if f in ("duplicate", "answer_lost"):
                ctx.faults["duplicated_message" if f == "duplicate" else "lost_answer"] += 1
                r2 = ask(ctx, other if f == "duplicate" else w, "apply", **kw)
                if (r["obj"] is None) != (r2["obj"] is None):
                    fail("not-repeatable", f"{op['op']} is refused by one process only")
                if r["obj"] is not None and (leaves(pickle.loads(r["obj"])) != leaves(pickle.loads(r2["obj"]))
                                             or r["model"] != r2["model"]):
                    fail("not-repeatable", f"{ads[s].kind} {op['op']}: the same message gives another result "
                                           f"{'in another process' if f == 'duplicate' else 'when sent again'}")
            if f == "crash_after":
                crash(ctx, w)
            if op["src"] >= 0:
                ctx.faults["late_message"] += 1
            if r["obj"] is None:
                ctx.extra["illegal_here"] += 1
                continue
            vers[s].append((r["obj"], r["model"]))
            tip[s] = len(vers[s]) - 1
            ctx.state(s, ads[s].tag, ads[s].abstract(r["model"]))
        pick = rng("final", case["seed"])
        for s, a in enumerate(ads):
            n = len(vers[s])
            for i in sorted({n - 1, pick.randrange(n)}):
                raw, model = vers[s][i]
                a.observe(ctx, pickle.loads(raw), model)


WAYS = ["steps", "jitsteps", "scan", "eager_scan", "vscan", "ckpt", "nojit", "again"]


class Modes:
    @staticmethod
    def gen(cfg, r):
        ads = [adapter(c) for c in cfg["systems"]]
        ops = []
        for _ in range(r.randint(2, 4)):
            s = r.randrange(len(ads))
            ways = r.sample(cfg.get("ways", WAYS), cfg.get("nways", 3))
            where = [r.choice(["here", "here", "w0", "w1"]) for _ in ways]
            ops.append({"sys": s, "prog": [ads[s].micro_gen(r) for _ in range(L)], "ways": ways, "where": where,
                        "src": -1 if r.random() < .7 else r.randrange(1 << 16), "crash": r.random() < cfg["p_crash"]})
        return ops

    @staticmethod
    def run(ctx, cfg, case):
        ads = [adapter(c) for c in cfg["systems"]]
        vers = [[a.build(ctx)] for a in ads]
        for op in case["ops"]:
            s = op["sys"] % len(ads)
            a = ads[s]
            obj, model = vers[s][-1 if op["src"] < 0 else op["src"] % len(vers[s])]
            prog = a.legalise(model, op["prog"])
            o2, ys = ctx.lib(a.fid("scan"), a.scan_fn(), obj, a.micro_xs(prog), mode="jit")
            want = leaves(ys), leaves(o2)
            raw = dumps(obj, False)
            for way, where in zip(op["ways"], op["where"]):
                how = "scan" if way == "again" else way
                if where == "here":
                    got = program(a, obj, prog, how, ctx)
                else:
                    if op["crash"]:
                        crash(ctx, where)
                    ctx.faults["other_process"] += 1
                    got = ask(ctx, where, "program", cfg=cfg["systems"][s], obj=raw, prog=prog, how=how)["out"]
                ctx.extra["way_" + how] += 1
                for name, g, w in zip(("returned values", "container"), got, want):
                    if len(g) != len(w):
                        fail("mode-dependent", f"{a.kind}: {how} ({where}) gives {len(g)} arrays, scan gives {len(w)}")
                    for k, (x, y) in enumerate(zip(g, w)):
                        if x != y:
                            X, Y = [np.frombuffer(v[2], np.uint8) for v in (x, y)]
                            fail("mode-dependent", f"{a.tag}: {name} #{k} differ between lax.scan and '{how}' "
                                                   f"({where}): {x[:2]} {X[:48].tolist()} / {y[:2]} {Y[:48].tolist()}")
            m2 = a.micro_check(ctx, prog, jax.tree_util.tree_map(np.asarray, ys), o2, model)
            vers[s].append((o2, m2))
            ctx.state(s, a.tag, a.abstract(m2), tuple(op["ways"]))
        for s, a in enumerate(ads):
            a.observe(ctx, *vers[s][-1])


PARTS = {"P15": Handoff, "P16": Modes}


def variants(pid, tier):
    q = tier == "quick"
    out = []
    if pid == "P15":
        for i, ss in enumerate(([st("Nested"), qu("F32")], [tb("U32", 14, 2, pool=20)], [hp("U32", 16, 4, "f16")],
                                [tb("Nested", 12, 4, pool=18), st("Bits", 14)], [hp("NestedArr", 12, 3, "f32"), qu("Half", 16)],
                                [st("IoBitsNest"), qu("Packed")], [tb("WideU8", 14, 3, pool=20)], [hp("Bits", 20, 5, "bf16")])):
            out.append(({}, {"systems": ss, "p_crash": .03}))
            if not q:
                out.append(({"SIM_X64": "1"}, {"systems": ss, "p_crash": .1}))
                out.append(({"XTRUCTURE_BGPQ_MERGE_BACKEND": "sort", "XTRUCTURE_HASHTABLE_SORT_BACKEND": "lax_stable"},
                            {"systems": ss, "p_crash": .1}))
    else:
        fast = ["jitsteps", "scan", "vscan", "ckpt", "again"]
        # The same value class under several configurations in one process: nothing may leak between them.
        for i, ss in enumerate(([st("Nested", 24), st("Nested", 7), qu("Nested", 24)], [qu("F32", 16), qu("F32", 40), st("F32", 16)],
                                [tb("U32", 20, 2, pool=20), tb("U32", 20, 4, 2, 9, pool=20)],
                                [tb("Nested", 12, 2, pool=18), tb("Nested", 12, 3, 1, 8, pool=18)],
                                # configurations that differ in one setting only
                                [tb("U32", 20, 2, 1, probes=1, pool=20), tb("U32", 20, 2, 1, pool=20), tb("U32", 20, 2, 2, pool=20)],
                                [tb("U32", 20, 2, 1, pool=20), tb("U32", 20, 4, 1, pool=20), tb("U32", 9, 2, 1, pool=20)],
                                [hp("U32", 24, 4, "f32"), hp("U32", 12, 4, "f32"), hp("Inner", 24, 4, "f32")],
                                [hp("U32", 24, 4, "f16"), hp("U32", 24, 8, "f32")],
                                [hp("Nested", 16, 2, "f32"), hp("Nested", 16, 4, "bf16")],
                                [st("Bits", 16), qu("Bits", 16), st("Packed", 12)])):
            heavy = ss[0]["kind"] in ("table", "heap")
            out.append(({}, {"systems": ss, "p_crash": .02, "ways": fast if heavy else WAYS, "runs": .5 if heavy else 1}))
            if not q:
                out.append(({}, {"systems": ss, "p_crash": .05, "ways": WAYS, "nways": 4}))
                out.append(({"SIM_X64": "1"}, {"systems": ss, "p_crash": .05, "ways": WAYS}))
    return out


class World:
    LEVEL = "exploration"
    TECHNIQUE = "deterministic simulation"
    RULE = "a state counts once per distinct abstract content of a container version reached"
    COMPONENTS = {**COMPONENTS, "real": COMPONENTS["real"] + ["separate CPython processes restoring pickled containers"],
                  "simulated": ["client, message order, loss, duplication and delay (parent process)", "worker crash and restart (SIGKILL of own child)"]}
    ASSUMPTIONS = CPU_ASSUME + ["all processes run the same library version on the same CPU backend"]

    def __init__(self, pid):
        self.ID = pid
        self.part = PARTS[pid]

    def jobs(self, tier, seed):
        n = {"P15": (16, 120), "P16": (16, 120)}[self.ID][0 if tier == "quick" else 1]
        return make_jobs(variants(self.ID, tier), n, seed, self.ID)

    def gen(self, cfg, seed):
        return {"cfg": cfg, "seed": seed, "ops": self.part.gen(cfg, rng(self.ID, seed))}

    def run(self, case):
        ctx = Ctx(case)
        self.part.run(ctx, case["cfg"], case)
        return ctx.result()


def make(pid):
    return World(pid)
