"""Value classes used as the payload of simulated systems.

Every class is importable by name (so that checkpoints can be restored in another
process) and comes with a generator of distinct, adversarially similar rows.
"""


import jax
import jax.numpy as jnp
import numpy as np

from xtructure import FieldDescriptor, xtructure_dataclass

FD = FieldDescriptor


@xtructure_dataclass
class U32:
    a: FD.scalar(dtype=jnp.uint32)


@xtructure_dataclass
class Pair32:
    a: FD.scalar(dtype=jnp.uint32)
    b: FD.scalar(dtype=jnp.uint32)


@xtructure_dataclass
class I8Pair:
    a: FD.scalar(dtype=jnp.int8)
    b: FD.scalar(dtype=jnp.int16)


@xtructure_dataclass
class Inner:
    p: FD.scalar(dtype=jnp.uint16)
    q: FD.tensor(dtype=jnp.bool_, shape=(3,))


@xtructure_dataclass
class Nested:
    k: FD.scalar(dtype=jnp.uint32)
    inner: FD.scalar(dtype=Inner)
    t: FD.tensor(dtype=jnp.uint8, shape=(2, 2))


@xtructure_dataclass
class NestedArr:
    k: FD.scalar(dtype=jnp.uint8)
    inner: FD.tensor(dtype=Inner, shape=(2,))


@xtructure_dataclass
class F32(object):
    a: FD.scalar(dtype=jnp.float32)
    v: FD.tensor(dtype=jnp.float32, shape=(3,))


@xtructure_dataclass
class WideU8:
    a: FD.tensor(dtype=jnp.uint8, shape=(41,))


@xtructure_dataclass
class WideF32:
    v: FD.tensor(dtype=jnp.float32, shape=(12,))


@xtructure_dataclass
class WideU32:
    v: FD.tensor(dtype=jnp.uint32, shape=(3, 4))
    t: FD.scalar(dtype=jnp.uint32)


@xtructure_dataclass
class Bools:
    m: FD.tensor(dtype=jnp.bool_, shape=(13,))


@xtructure_dataclass
class Half:
    a: FD.tensor(dtype=jnp.float16, shape=(3,))
    b: FD.scalar(dtype=jnp.bfloat16)


@xtructure_dataclass
class Bits:
    """Every field declares bits: aggregate packing, with a tail byte."""

    face: FD.tensor(dtype=jnp.uint8, shape=(11,), bits=3)
    flag: FD.tensor(dtype=jnp.bool_, shape=(5,), bits=1)


@xtructure_dataclass
class BitsWide:
    """Aggregate packing wider than eight words."""

    cells: FD.tensor(dtype=jnp.uint8, shape=(53,), bits=5)
    z: FD.scalar(dtype=jnp.uint16, bits=12)


@xtructure_dataclass(bitpack="off")
class IoBits:
    """Bit-declared fields stored unpacked in memory, packed on disk."""

    a: FD.tensor(dtype=jnp.uint8, shape=(7,), bits=1)
    b: FD.tensor(dtype=jnp.uint8, shape=(2, 3), bits=5)
    c: FD.tensor(dtype=jnp.uint32, shape=(3,), bits=12)
    d: FD.scalar(dtype=jnp.uint32, bits=32)
    e: FD.scalar(dtype=jnp.float32)


@xtructure_dataclass
class IoBitsNest:
    x: FD.scalar(dtype=IoBits)
    y: FD.tensor(dtype=jnp.uint16, shape=(3,), bits=9)
    n: FD.scalar(dtype=jnp.int32)


@xtructure_dataclass
class Packed:
    """Field stored packed in memory."""

    cells: FD.packed_tensor(unpacked_shape=(19,), packed_bits=3)
    n: FD.scalar(dtype=jnp.uint32)


@xtructure_dataclass
class Exotic:
    """Element types numpy files do not know."""

    f8: FD.tensor(dtype=jnp.float8_e4m3fn, shape=(3,), fill_value=0)
    bf: FD.scalar(dtype=jnp.bfloat16, default=0)
    i4: FD.tensor(dtype=jnp.int4, shape=(2,), fill_value=0)
    c: FD.scalar(dtype=jnp.complex64, default=0)


@xtructure_dataclass
class Huge:
    """Longer than the streaming threshold; one field longer than 2**16 words."""

    a: FD.tensor(dtype=jnp.uint32, shape=(9000,))
    b: FD.tensor(dtype=jnp.uint16, shape=(131075,))
    c: FD.tensor(dtype=jnp.uint32, shape=(9000,))
    d: FD.scalar(dtype=jnp.float32)


CLASSES = {
    c.__name__: c
    for c in (U32, Pair32, I8Pair, Inner, Nested, NestedArr, F32, WideU8, WideF32, WideU32, Bools, Half,
              Bits, BitsWide, IoBits, IoBitsNest, Packed, Exotic, Huge)
}

# Upper bounds of stored (in-memory) integer leaves, where narrower than the dtype.
_LIMITS = {
    "Bits": {"face": 8},
    "BitsWide": {"cells": 32, "z": 4096},
    "IoBits": {"a": 2, "b": 32, "c": 4096},
    "IoBitsNest": {"x.a": 2, "x.b": 32, "x.c": 4096, "y": 512},
}


def leaf_specs(name):
    """[(dotted path, shape, dtype)] of one element, in pytree leaf order."""
    one = CLASSES[name].default()
    out = []
    for path, leaf in jax.tree_util.tree_flatten_with_path(one)[0]:
        out.append((".".join(getattr(k, "name", str(k)) for k in path), tuple(leaf.shape), np.dtype(leaf.dtype)))
    return out, jax.tree_util.tree_structure(one)


def colliding_pairs(cls, seed, want, tries=1 << 18):
    """Leaves of rows of a two-word class that come in pairs with equal hash pairs."""
    r = np.random.RandomState(seed & 0x7FFFFFFF)
    a = r.randint(0, 2**32, size=tries, dtype=np.uint64).astype(np.uint32)
    b = r.randint(0, 2**32, size=tries, dtype=np.uint64).astype(np.uint32)
    x = cls(a=jnp.asarray(a), b=jnp.asarray(b))
    h0, h1 = jax.jit(jax.vmap(lambda v: v.hash_pair(seed)))(x)
    h = np.asarray(h0).astype(np.uint64) << np.uint64(32) | np.asarray(h1).astype(np.uint64)
    order = np.argsort(h, kind="stable")
    hs = h[order]
    hit = np.nonzero(hs[1:] == hs[:-1])[0]
    rows = []
    for i in hit[: want // 2]:
        rows += [order[i], order[i + 1]]
    rows += list(range(want - len(rows)))
    rows = rows[:want]
    return [a[rows], b[rows]], len(hit)


def tail_rows(name, n, seed, first=8):
    """Leaves of n distinct rows that agree in their first eight 32-bit words."""
    base = Pool(name, 1, seed)
    r = np.random.RandomState((seed + 1) & 0x7FFFFFFF)
    spots, off = [], 0
    for k, (path, shape, dtype) in enumerate(base.specs):
        size = int(np.prod(shape, dtype=int))
        per = max(1, 4 // dtype.itemsize)
        spots += [(k, j, path) for j in range(size) if off + j // per >= first]
        off += -(-size // per)
    lim = _LIMITS.get(name, {})
    rows, seen = [], set()
    while len(rows) < n:
        row = [np.array(x[0], copy=True) for x in base.leaves]
        for _ in range(1 + r.randint(3)):
            k, j, path = spots[r.randint(len(spots))]
            hi = lim.get(path)
            nb = (hi - 1).bit_length() if hi else row[k].dtype.itemsize * 8
            u = row[k].reshape(-1).view(np.dtype(f"u{row[k].dtype.itemsize}"))
            u[j] ^= np.array(1, u.dtype) << np.array(r.randint(nb), u.dtype)
        key = b"|".join(x.tobytes() for x in row)
        if key not in seen:
            seen.add(key)
            rows.append(row)
    return [np.stack([row[k] for row in rows]) for k in range(len(base.specs))]


class Pool:
    """`n` distinct values of a class, indexable by integer id (-1: not in the pool)."""

    def __init__(self, name, n, seed, fixed=None):
        self.name = name
        self.cls = CLASSES[name]
        self.specs, self.tree = leaf_specs(name)
        self.leaves = fixed if fixed is not None else self._generate(n, seed)
        self.n = len(self.leaves[0])
        self._ids = {}
        for i in range(self.n):
            self._ids[self.row_bytes(self.leaves, i)] = i

    @staticmethod
    def row_bytes(leaves, i):
        return b"|".join(np.ascontiguousarray(x[i]).tobytes() for x in leaves)

    def _generate(self, n, seed):
        r = np.random.RandomState(seed & 0x7FFFFFFF)
        rows, seen = [], set()
        lim = _LIMITS.get(self.name, {})

        def rand_leaf(path, shape, dtype):
            if dtype == np.bool_:
                return r.randint(0, 2, size=shape).astype(bool)
            if dtype.kind in "ui":
                hi = lim.get(path)
                mode = r.randint(4)
                ii = np.iinfo(dtype)
                lo, top = (0, hi - 1) if hi else (int(ii.min), int(ii.max))
                if mode == 0:
                    return np.full(shape, lo, dtype)
                if mode == 1:
                    return np.full(shape, top, dtype)
                if mode == 2:
                    return r.randint(0, min(top, 3) + 1, size=shape).astype(dtype)
                return (lo + (r.randint(0, 2**31, size=shape).astype(np.int64) * 2 + r.randint(0, 2, size=shape)) % (top - lo + 1)).astype(dtype)
            mode = r.randint(3)
            v = r.randint(-6, 7, size=shape).astype(np.float64)
            if mode == 1:
                v = v * 0.25
            elif mode == 2:
                v = np.where(r.randint(0, 2, size=shape), v, 1.0)
            return (v + 0.0).astype(dtype)  # never -0.0

        def mutate(base):
            leaves = [np.array(x, copy=True) for x in base]
            for _ in range(1 + r.randint(3)):
                k = r.randint(len(leaves))
                path, shape, dtype = self.specs[k]
                x = leaves[k].reshape(-1)
                j = r.randint(max(x.size, 1))
                kind = r.randint(3)
                if dtype == np.bool_:
                    x[j] = ~x[j]
                elif dtype.kind in "ui":
                    hi = lim.get(path)
                    nb = (hi - 1).bit_length() if hi else dtype.itemsize * 8
                    if kind == 2 and x.size > 1:
                        j2 = r.randint(x.size)
                        x[j], x[j2] = x[j2], x[j]
                    else:
                        b = nb - 1 if kind == 0 else r.randint(nb)
                        u = x.view(np.dtype(f"u{dtype.itemsize}"))
                        u[j] ^= np.array(1, u.dtype) << np.array(b, u.dtype)
                else:
                    if kind == 0:
                        x[j] = -x[j] if x[j] != 0 else x[j] + np.array(1, dtype)
                    elif kind == 1:
                        x[j] = x[j] + np.array(0.5, dtype)
                    elif x.size > 1:
                        j2 = r.randint(x.size)
                        x[j], x[j2] = x[j2], x[j]
                    x[j] = x[j] + np.array(0, dtype)
                leaves[k] = x.reshape(shape)
            return leaves

        tries = 0
        while len(rows) < n and tries < 50 * n + 200:
            tries += 1
            if not rows or r.randint(3) == 0:
                cand = [rand_leaf(*s) for s in self.specs]
            else:
                cand = mutate(rows[r.randint(len(rows))])
            key = b"|".join(np.ascontiguousarray(x).tobytes() for x in cand)
            if key in seen:
                continue
            seen.add(key)
            rows.append(cand)
        return [np.stack([row[k] for row in rows]) for k in range(len(self.specs))]

    def take(self, ids):
        """Instance holding the values with these ids (int -> single, list -> batch)."""
        if isinstance(ids, int):
            leaves = [jnp.asarray(x[ids]) for x in self.leaves]
        else:
            idx = np.asarray(list(ids), dtype=np.int64)
            leaves = [jnp.asarray(x[idx]) for x in self.leaves]
        return jax.tree_util.tree_unflatten(self.tree, leaves)

    def ids(self, inst):
        """Ids of the values in a batched instance; -1 where the value is unknown."""
        leaves = [np.asarray(x) for x in jax.tree_util.tree_leaves(inst)]
        if len(leaves) != len(self.specs):
            return None
        n = len(leaves[0]) if leaves[0].ndim > len(self.specs[0][1]) else None
        if n is None:
            leaves = [x[None] for x in leaves]
            return self._ids.get(self.row_bytes(leaves, 0), -1)
        return [self._ids.get(self.row_bytes(leaves, i), -1) for i in range(n)]
