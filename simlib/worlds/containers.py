"""Container histories: P01-P05, P07-P11, P14."""

from __future__ import annotations

from . import hist
from .base import make_jobs

CPU_ASSUME = [
    "float keys and values are finite and never -0.0 (equality of the library is bitwise)",
    "operations outside the documented domain (pop from empty, push over capacity) are not generated",
    "the reference models in simlib/worlds/hist.py state the documented behaviour",
]
DEV_ASSUME = [
    "the simulated device (simlib/device.py, simlib/kernels.py) covers the freedoms of the XLA/Pallas contract it lists; "
    "GPU/TPU code generators themselves are not run",
]
COMPONENTS = {
    "real": ["xtructure containers, dataclass machinery, hashing and merge code, traced from /repo", "JAX tracing, jit, lax.scan, vmap",
             "XLA CPU execution (modes api, jit, scan, vscan)", "Pallas kernel bodies (traced from /repo)"],
    "simulated": ["device execution order of scatters and unstable sorts (mode dev)",
                  "GPU/TPU kernel execution: grid scheduling, memory, atomics (interpreter)",
                  "process restart (checkpoint to bytes)", "interrupts"],
}

ALL = [("api", 4), ("jit", 2), ("dev", 3), ("scan", 1), ("dscan", .6), ("vscan", .6), ("ckpt", .7), ("intr", .6)]
HOST = [("api", 4), ("jit", 2), ("scan", 1), ("vscan", .7), ("ckpt", .7), ("intr", .7)]
API = [("api", 6), ("ckpt", .7), ("intr", .7)]
JIT = [("jit", 5), ("scan", 1.2), ("ckpt", .7)]
VSC = [("api", 3), ("vscan", 1.5), ("ckpt", .5)]
DEV = [("dev", 6), ("dscan", 1), ("ckpt", .5)]
DEV1 = [("dev", 6), ("ckpt", .5)]
DSC = [("dscan", 3), ("ckpt", .5)]
CYC = (API, JIT, DEV1, VSC)
GPU = {"SIM_BACKEND": "gpu"}
TPU = {"SIM_BACKEND": "tpu"}


def st(cls, cap=24, **k):
    return {"kind": "stack", "cls": cls, "cap": cap, **k}


def qu(cls, cap=24, **k):
    return {"kind": "queue", "cls": cls, "cap": cap, **k}


def tb(cls, cap=20, bucket=2, mult=2, seed=5, **k):
    return {"kind": "table", "cls": cls, "cap": cap, "bucket": bucket, "mult": mult, "seed": seed, **k}


def hp(cls, cap=24, batch=4, kd="f16", **k):
    return {"kind": "heap", "cls": cls, "cap": cap, "batch": batch, "kd": kd, **k}


def V(env, modes, *systems, **k):
    return (env, {"systems": list(systems), "modes": modes, **k})


def no_scan(modes):
    return [m for m in modes if "scan" not in m[0]]


SORTS = ("stable_argsort", "lax_unstable", "lax_stable")


def variants(pid, tier):
    q = tier == "quick"
    out = []
    if pid in ("P01", "P02"):
        mk = st if pid == "P01" else qu
        classes = ["Nested", "F32", "Bits", "NestedArr", "Half", "Packed", "IoBitsNest", "U32"]
        for i, c in enumerate(classes):
            cap = (24, 7, 33, 16)[i % 4]
            out.append(V({}, HOST, mk(c, cap)))
            if i % 2 == 0 or not q:
                out.append(V({}, DEV + [("api", 2)], mk(c, cap)))
        out.append(V({"SIM_X64": "1"}, HOST, mk("I8Pair", 19)))
        bulk = dict(PUSH=(1, 40, 130, 257), POP=(1, 33, 100, 256))
        out.append(V({}, API, mk("U32", 700, **bulk), runs=.5))
        out.append(V({}, JIT, mk("Nested", 300, **dict(bulk, PUSH=(1, 2, 127, 300))), runs=.5))
        huge = [("api", 2), ("jit", 2), ("ckpt", .3)]
        out.append(V({}, huge, mk("U32", 210000, PUSH=(3, 256, 66000, 70000), POP=(1, 256, 40000, 66000)), max_ops=12, min_ops=5, p_tip=.97, runs=.2))
        out.append(V({}, huge, mk("I8Pair", 65536, PUSH=(1, 40000, 65536, 255), POP=(1, 255, 32768, 65536)), max_ops=10, min_ops=4, p_tip=.97, runs=.2))
        if not q:
            for i, c in enumerate(("WideU8", "WideF32", "WideU32", "Bools", "BitsWide", "Inner", "IoBits", "I8Pair")):
                for cap in (5, 12, 40):
                    out.append(V({}, ALL, mk(c, cap)))
    elif pid in ("P03", "P04"):
        # P03: keys and sizes; P04: pairing, ties, value backends.
        cpu = [({}, HOST), ({"XTRUCTURE_BGPQ_MERGE_BACKEND": "sort"}, HOST), ({}, DEV),
               ({"XTRUCTURE_BGPQ_SORT_STABLE": "false"}, DEV),
               ({"XTRUCTURE_BGPQ_MERGE_BACKEND": "sort", "XTRUCTURE_BGPQ_SORT_STABLE": "false"}, DEV),
               ({"XTRUCTURE_BGPQ_VALUE_REORDER": "concat"}, HOST), ({"SIM_X64": "1"}, HOST)]
        gpu = [({**GPU, "XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE": "2"}, DEV),
               ({**GPU, "XTRUCTURE_BGPQ_MERGE_VALUE_BACKEND": "on", "XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE": "4"}, DEV)]
        sys3 = [hp("U32", 24, 4, "f16"), hp("U32", 30, 8, "f32"), hp("U32", 14, 3, "bf16"), hp("U32", 40, 5, "f16")]
        sys4 = [hp("Nested", 24, 4, "f16"), hp("Bits", 20, 5, "f32"), hp("NestedArr", 24, 8, "f16"), hp("F32", 15, 3, "bf16")]
        sysl = sys3 if pid == "P03" else sys4
        for i, (e, m) in enumerate(cpu + gpu):
            g = "SIM_BACKEND" in e
            out.append(V(e, DEV1 if g else m, sysl[i % len(sysl)], p_tip=.9, max_ops=24 if g else 36,
                         recheck=0 if g else 3, runs=.4 if g else 1))
            if g:
                out.append(V(e, DSC, sysl[(i + 1) % len(sysl)], max_ops=6, min_ops=2, recheck=0, runs=.3))
        out.append(V({}, HOST, sysl[1], max_ops=44, p_tip=.95))
        out.append(V({}, HOST, sysl[2], max_ops=44, p_tip=.95))
        out.append(V({}, no_scan(HOST), hp(sysl[3]["cls"], 6, 1, "f32"), max_ops=24))
        out.append(V({}, HOST, hp(sysl[0]["cls"], 64, 2, "f32"), max_ops=70, p_tip=.97))
        out.append(V({}, JIT, hp(sysl[0]["cls"], 900, 64, "f32"), max_ops=40, p_tip=.97, runs=.4))
        out.append(V({}, no_scan(API), hp(sysl[1]["cls"], 700, 17, "f16"), max_ops=60, p_tip=.97, runs=.4))
        # more than 256 nodes; blocks of more than 256 and of more than 65536 elements
        out.append(V({}, [("jit", 1)], hp(sysl[0]["cls"], 1300, 4, "f32", p_insert=.93), max_ops=420, min_ops=330, p_tip=1, recheck=0, runs=.05))
        out.append(V({}, [("jit", 1)], hp(sysl[2]["cls"], 4000, 300, "f32", p_insert=.7), max_ops=30, p_tip=.97, recheck=0, runs=.1))
        out.append(V({}, [("jit", 1)], hp("U32", 280000, 70000, "f32", p_insert=.7), max_ops=7, min_ops=3, p_tip=.97, recheck=0, runs=.05))
        if not q:
            for e, m in cpu + gpu:
                for s in sysl + [hp("WideU8", 33, 16, "f32"), hp("Packed", 60, 6, "f16"), hp("I8Pair", 9, 2, "f32")]:
                    out.append(V(e, m, s, p_tip=.9, max_ops=40))
    elif pid == "P05":
        m = no_scan(HOST)
        for i, (c, cap, b, kd) in enumerate([("U32", 12, 4, "f16"), ("Nested", 9, 3, "f32"), ("U32", 16, 2, "f32"),
                                             ("F32", 25, 5, "bf16"), ("U32", 8, 8, "f16"), ("U32", 5, 1, "f32"),
                                             ("U32", 28, 4, "f32"), ("I8Pair", 14, 2, "f16")]):
            out.append(V({}, m, hp(c, cap, b, kd, overflow=1, p_insert=.8 if i % 2 else .9), max_ops=34, p_tip=.93))
        out.append(V({"XTRUCTURE_BGPQ_MERGE_BACKEND": "sort"}, m, hp("U32", 12, 4, "f32", overflow=1, p_insert=.85), max_ops=30))
        out.append(V({"XTRUCTURE_BGPQ_SORT_STABLE": "false"}, [("dev", 5), ("ckpt", 1)], hp("U32", 12, 4, "f32", overflow=1, p_insert=.85), max_ops=30))
        out.append(V({**GPU, "XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE": "2"}, [("dev", 5), ("ckpt", 1)], hp("U32", 12, 4, "f16", overflow=1, p_insert=.85), max_ops=20))
        if not q:
            for cap in (6, 10, 18, 31, 48):
                for b in (2, 3, 6):
                    out.append(V({}, m, hp("U32", cap, b, "f32", overflow=1, p_insert=.85), max_ops=50, p_tip=.95))
    elif pid == "P07":
        s = [tb("U32", 20, 2), tb("Nested", 24, 4, seed=9), tb("Bits", 12, 1, 3, pool=30), tb("F32", 33, 8, 1),
             tb("WideU8", 20, 3, 2, 77), tb("NestedArr", 16, 5, 1.5), tb("Half", 9, 2, 4), tb("I8Pair", 40, 8, 1, 3, pool=60)]
        for i, x in enumerate(s):
            out.append(V({"XTRUCTURE_HASHTABLE_SORT_BACKEND": SORTS[i % 3]}, CYC[i % 4], x))
        for i, x in enumerate(s[:6]):
            out.append(V({"XTRUCTURE_HASHTABLE_SORT_BACKEND": SORTS[(i + 1) % 3]}, CYC[(i + 2) % 4], x))
        out.append(V({}, DSC, s[0]))
        out.append(V({"SIM_X64": "1"}, API, s[2]))
        big = dict(SIZES=(1, 5, 37, 70, 150, 300, 301), pool=330)
        out.append(V({}, API, tb("U32", 420, 8, 1, **big), runs=.4))
        out.append(V({}, JIT, tb("Nested", 300, 32, 1, **dict(big, pool=300)), runs=.4))
        out.append(V({}, [("jit", 3), ("api", 1)], tb("U32", 70000, 8, 1, SIZES=(1, 255, 256, 300, 40000, 66000, 70000), pool=70000), max_ops=7, min_ops=4, p_tip=.97, runs=.1))
        out.append(V({}, [("jit", 3), ("api", 1)], tb("U32", 66000, 200, 1, SIZES=(1, 255, 256, 300, 20000, 70000), pool=66000), max_ops=7, min_ops=4, p_tip=.97, runs=.1))
        if not q:
            for c in ("WideF32", "WideU32", "Bools", "BitsWide", "IoBitsNest", "Packed", "Inner"):
                for b in (1, 2, 7, 32):
                    out.append(V({"XTRUCTURE_HASHTABLE_SORT_BACKEND": SORTS[b % 3]}, ALL, tb(c, 6 + 3 * b % 31, b, 2, b, pool=28)))
    elif pid == "P08":
        s = [tb("U32", 40, 4, pool=14), tb("WideU8", 40, 4, pool=12), tb("Bits", 40, 2, pool=16), tb("BitsWide", 40, 8, pool=12),
             tb("WideU32", 40, 3, pool=16)]
        k = 0
        for mode in ("safe", "exact", "approx"):
            for sb in SORTS:
                e = {"XTRUCTURE_HASHTABLE_DEDUPE_MODE": mode, "XTRUCTURE_HASHTABLE_SORT_BACKEND": sb}
                out.append(V(e, CYC[(k * 2 + k // 2) % 4] if sb != "lax_unstable" else DEV1, dict(s[k % 5], form=k, forms=3)))
                k += 1
        out.append(V({"XTRUCTURE_HASHTABLE_SORT_BACKEND": "lax_unstable", "XTRUCTURE_HASHTABLE_DEDUPE_MODE": "exact"}, DEV1, s[3]))
        out.append(V({"SIM_X64": "1"}, API, s[0]))
        out.append(V({}, JIT, tb("WideU8", 420, 8, 1, SIZES=(1, 5, 37, 70, 150, 300, 301), pool=300), runs=.4))
        for n in (256, 257, 512, 65536):
            out.append(V({}, JIT, tb("U32", 240, 8, 1, SIZES=(1, 2, n, n, n, n), pool=200, form=n, forms=3), min_ops=5, max_ops=8 if n > 1000 else 14, p_tip=.7, runs=.4 if n < 1000 else .1))
        # colliding hashes: every distinct value still counts once ("approx" promises nothing here)
        for mode, bits, x in (("safe", "0", s[0]), ("exact", "1", s[1]), ("safe", "2", s[4]), ("exact", "3", s[0]),
                              ("exact", "4", tb("WideU32", 40, 3, pool=16, tail=2)), ("safe", "1", tb("BitsWide", 40, 4, pool=16, tail=1))):
            out.append(V({"SIM_WEAK_HASH": bits, "XTRUCTURE_HASHTABLE_DEDUPE_MODE": mode,
                          "XTRUCTURE_HASHTABLE_SORT_BACKEND": SORTS[int(bits) % 3]}, JIT if bits == "0" else API, x, runs=.6))
        if not q:
            for mode in ("safe", "exact", "approx"):
                for sb in SORTS:
                    for x in s:
                        out.append(V({"XTRUCTURE_HASHTABLE_DEDUPE_MODE": mode, "XTRUCTURE_HASHTABLE_SORT_BACKEND": sb}, ALL, x))
    elif pid == "P09":
        k = 0
        for bits in ("0", "1", "3", "5"):
            for mode in ("safe", "exact"):
                e = {"SIM_WEAK_HASH": bits, "XTRUCTURE_HASHTABLE_DEDUPE_MODE": mode,
                     "XTRUCTURE_HASHTABLE_SORT_BACKEND": SORTS[k % 3]}
                x = [tb("U32", 20, 4, pool=22), tb("Nested", 20, 2, pool=22), tb("WideU8", 16, 8, pool=18), tb("Bits", 12, 3, 1, pool=14)][k % 4]
                out.append(V(e, CYC[k % 4] if k < 4 else CYC[(k + 2) % 4], x))
                k += 1
        out.append(V({"SIM_COLLIDE": "1"}, JIT, tb("Pair32", 20, 4, seed=1, pool=16, collide=1)))
        out.append(V({"SIM_COLLIDE": "1", "XTRUCTURE_HASHTABLE_DEDUPE_MODE": "exact"}, API, tb("Pair32", 20, 2, seed=1, pool=16, collide=1)))
        out.append(V({"SIM_WEAK_HASH": "2", **GPU}, DEV1, tb("U32", 20, 4, pool=22)))
        # wide values that differ only after their first eight words
        out.append(V({"SIM_WEAK_HASH": "0"}, JIT, tb("WideU32", 20, 4, pool=16, tail=3)))
        out.append(V({"SIM_WEAK_HASH": "1", "XTRUCTURE_HASHTABLE_DEDUPE_MODE": "exact"}, API, tb("BitsWide", 20, 8, pool=16, tail=4)))
        out.append(V({"SIM_WEAK_HASH": "1", "XTRUCTURE_HASHTABLE_SORT_BACKEND": "lax_unstable",
                      "XTRUCTURE_HASHTABLE_DEDUPE_MODE": "exact"}, DEV1, tb("WideU8", 20, 2, pool=16, tail=5)))
        if not q:
            for bits in ("0", "1", "2", "4", "6"):
                for mode in ("safe", "exact"):
                    for sb in SORTS:
                        for x in (tb("WideU32", 20, 3, pool=20), tb("BitsWide", 18, 2, pool=20), tb("I8Pair", 25, 8, pool=25)):
                            out.append(V({"SIM_WEAK_HASH": bits, "XTRUCTURE_HASHTABLE_DEDUPE_MODE": mode,
                                          "XTRUCTURE_HASHTABLE_SORT_BACKEND": sb}, ALL, x))
    elif pid == "P10":
        k = 0
        for be in (GPU, TPU):
            for x in (tb("U32", 20, 2, 1, pool=24), tb("U32", 9, 1, 1, pool=24), tb("Nested", 24, 4, 1, pool=30), tb("U32", 16, 8, 1, pool=20)):
                e = dict(be)
                if k % 2:
                    e["SIM_WEAK_HASH"] = str(k % 4)
                out.append(V(e, DSC if k == 3 else DEV1, x, max_ops=20))
                k += 1
        out.append(V(GPU, DEV1, tb("U32", 12, 2, 2, probes=3, pool=24), max_ops=20))
        out.append(V(TPU, DEV1, tb("U32", 12, 2, 2, probes=3, pool=24), max_ops=20))
        # the bucket-owner kernel on a device whose grid programs run side by side
        for x in (tb("U32", 20, 2, 1, pool=24), tb("Nested", 24, 4, 1, pool=30)):
            out.append(V({**TPU, "SIM_GRID": "parallel"}, DEV1, x, max_ops=20))
        # one bucket word filled to its last bit, by single and batched insertions in turn
        out.append(V({**GPU, "SIM_WEAK_HASH": "0"}, DEV1, tb("U32", 30, 32, 1, pool=36), max_ops=30, p_tip=.97))
        out.append(V(TPU, DEV1, tb("U32", 30, 31, 1, pool=34), max_ops=30, p_tip=.97))
        out.append(V(TPU, DEV1, tb("U32", 30, 32, 1, pool=34), max_ops=30, p_tip=.97))
        if not q:
            for be in (GPU, TPU):
                for b in (1, 2, 3, 5, 16, 32):
                    for w in (None, "0", "2", "4"):
                        out.append(V({**be, **({"SIM_WEAK_HASH": w} if w else {})}, DEV, tb("U32", 14, b, 1, b, pool=24), max_ops=24))
    elif pid == "P11":
        k = 0
        for x in (tb("U32", 12, 4, 1, pool=24), tb("U32", 5, 1, 1, pool=12), tb("U32", 16, 2, 2, probes=1, pool=30),
                  tb("Nested", 16, 2, 1, probes=4, pool=24), tb("U32", 7, 3, 1, 8, pool=20), tb("U32", 33, 8, 1, pool=44),
                  tb("Bits", 12, 4, 2, probes=2, pool=24), tb("U32", 3, 8, .5, pool=14)):
            out.append(V({} if k % 3 else {"SIM_WEAK_HASH": str(k)}, CYC[k % 4], x, max_ops=36, p_tip=.93))
            k += 1
        out.append(V({}, DEV1, tb("U32", 12, 4, 1, probes=2, pool=24), max_ops=30))
        out.append(V({}, JIT, tb("U32", 260, 16, 1, SIZES=(1, 5, 37, 70, 150, 200, 300), pool=330), max_ops=20, p_tip=.95, runs=.4))
        out.append(V(GPU, DEV1, tb("U32", 12, 4, 1, pool=26), max_ops=24, p_tip=.93))
        # capacities that use every slot there is: a probe sequence must visit every bucket
        for x in (tb("U32", 16, 2, 1, pool=20), tb("U32", 32, 1, 1, 11, pool=36), tb("Nested", 8, 1, 1, 3, pool=12),
                  tb("U32", 64, 4, 1, 9, pool=70, SIZES=(1, 5, 13, 30, 64))):
            out.append(V({}, JIT if x["cap"] > 40 else CYC[k % 4], x, max_ops=40, p_tip=.97))
            k += 1
        # every slot filled by one batch: items displaced in a late round still find the last free slots
        for cap, b, sz in ((64, 2, (1, 7, 30, 64, 90)), (32, 1, (1, 7, 20, 32, 50)), (16, 2, (1, 3, 7, 16, 33)), (64, 1, (1, 3, 8, 64)), (64, 4, (1, 9, 20, 64, 128))):
            out.append(V({}, JIT if cap > 40 else CYC[k % 4], tb("U32", cap, b, 1, cap + b, SIZES=sz, pool=cap), max_ops=16, p_tip=.6, runs=.6))
            k += 1
        if not q:
            for cap in (1, 2, 4, 6, 8, 15, 16, 27, 32):
                for b in (1, 2, 5, 8):
                    for pr in (None, 1, 3, 9):
                        out.append(V({}, ALL, tb("U32", cap, b, 1, cap, probes=pr, pool=cap + 10), max_ops=36, p_tip=.93))
    elif pid == "P14":
        mix = [st("Nested"), qu("F32"), tb("U32", 14, 2, pool=20), hp("U32", 16, 4, "f16")]
        low = dict(p_tip=.45, max_ops=40, min_ops=20, recheck=8)
        for i in range(4):
            out.append(V({}, [("api", 5), ("ckpt", .6), ("intr", 1)], *mix, **low))
        out.append(V({}, no_scan(HOST), *[st("Bits"), qu("NestedArr"), tb("WideU8", 14, 3, pool=20), hp("Bits", 16, 3, "f32")], **low))
        out.append(V({}, DEV, st("Nested"), qu("F32"), **low))
        out.append(V({}, DEV, tb("U32", 14, 2, pool=20), **low))
        out.append(V({}, DEV, hp("U32", 16, 4, "f16"), **low))
        out.append(V({}, [("scan", 3), ("vscan", 3), ("api", 2)], st("U32"), qu("Half"), hp("U32", 16, 4, "f32"), **low))
        out.append(V({}, [("scan", 3), ("vscan", 2), ("api", 2)], tb("U32", 14, 2, pool=20), **low))
        out.append(V(GPU, DEV, tb("U32", 14, 2, pool=20), **low))
        if not q:
            for c in ("Half", "Packed", "IoBits", "WideU32", "Inner"):
                out.append(V({}, ALL, st(c), qu(c), **low))
                out.append(V({}, ALL, tb(c, 14, 3, pool=20), **low))
                out.append(V({}, ALL, hp(c, 16, 4, "f32"), **low))
    return out


RUNS = {"P01": (60, 400), "P02": (60, 400), "P03": (40, 300), "P04": (40, 300), "P05": (40, 300), "P07": (40, 250),
        "P08": (40, 250), "P09": (40, 250), "P10": (30, 200), "P11": (40, 200), "P14": (30, 200)}


class World:
    LEVEL = "exploration"
    TECHNIQUE = "deterministic simulation"
    RULE = ("a state counts once per distinct abstract content of a container version (or distinct kernel "
            "schedule) reached; each needs at least one operation on a branch of the history")
    COMPONENTS = COMPONENTS
    ASSUMPTIONS = CPU_ASSUME + DEV_ASSUME

    def __init__(self, pid):
        self.ID = pid

    def jobs(self, tier, seed):
        return make_jobs(variants(self.ID, tier), RUNS[self.ID][0 if tier == "quick" else 1], seed, self.ID)

    def gen(self, cfg, seed):
        return hist.gen_case(cfg, seed)

    def run(self, case):
        return hist.run_case(case)


def make(pid):
    return World(pid)
