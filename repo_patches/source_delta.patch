From f38c321896a38fd8ced80ab61a695b247dbd0f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 01/26] fix: HashTable.parallel_insert raised TypeError
 (lax.select with mismatched operand shapes)

jax.lax.select requires its cases to have identical shapes; the two masks in
the bucket_occupancy update passed a scalar, so every parallel_insert on a
table with bucket_size <= 32 raised before inserting anything.
---
 xtructure/hashtable/insert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xtructure/hashtable/insert.py b/xtructure/hashtable/insert.py
index f342f60..28cecf9 100644
--- a/xtructure/hashtable/insert.py
+++ b/xtructure/hashtable/insert.py
@@ -242,12 +242,12 @@ def _hashtable_parallel_insert_internal(
         bucket_i32 = jnp.asarray(index.index, dtype=jnp.int32)
         slot_u32 = jnp.asarray(index.slot_index, dtype=jnp.uint32)
         safe_slot_u32 = jnp.asarray(
-            jax.lax.select(successful, slot_u32, jnp.uint32(0)),
+            jnp.where(successful, slot_u32, jnp.uint32(0)),
             dtype=jnp.uint32,
         )
         bit = jnp.left_shift(jnp.uint32(1), safe_slot_u32)
         bit = jnp.asarray(
-            jax.lax.select(successful, bit, jnp.uint32(0)), dtype=jnp.uint32
+            jnp.where(successful, bit, jnp.uint32(0)), dtype=jnp.uint32
         )
         table = table.replace(
             bucket_occupancy=table.bucket_occupancy.at[bucket_i32].add(bit)
-- 
2.43.0


From 5b69d04c6729715614d701087d75fd7cd23b5f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 02/26] fix: HashTable placed items beyond max_probes, where
 lookup never finds them

With an explicit max_probes smaller than the table, an exhausted search kept
walking and could insert into a bucket that no lookup probes: the item was
reported inserted, was not found afterwards and was inserted again on retry.
---
 xtructure/hashtable/insert.py | 57 +++++++++++++++++++++++------------
 xtructure/hashtable/lookup.py | 20 +++++++++---
 2 files changed, 53 insertions(+), 24 deletions(-)

diff --git a/xtructure/hashtable/insert.py b/xtructure/hashtable/insert.py
index 28cecf9..dadf1bf 100644
--- a/xtructure/hashtable/insert.py
+++ b/xtructure/hashtable/insert.py
@@ -138,12 +138,21 @@ def _hashtable_parallel_insert_internal(
     index: Any,
     updatable: chex.Array,
     fingerprints: chex.Array,
+    probed: chex.Array,
 ) -> tuple[Any, Any, chex.Array]:
     capacity = jnp.asarray(table._capacity, dtype=SIZE_DTYPE)
     probe_steps = jnp.asarray(probe_steps, dtype=SIZE_DTYPE)
+    bucket_size_u32 = SIZE_DTYPE(table.bucket_size)
+    max_probes_u32 = SIZE_DTYPE(table.max_probes)
 
-    def _advance(idx: Any, step: chex.Array) -> Any:
-        next_bucket = idx.slot_index >= (table.bucket_size - 1)
+    def _advance(
+        idx: Any, step: chex.Array, probed: chex.Array
+    ) -> tuple[Any, chex.Array]:
+        bucket_end = idx.slot_index >= (table.bucket_size - 1)
+        # `probed` counts probes the way lookups do. Once it covers `max_probes`,
+        # no lookup visits the next bucket, so nothing may be placed there.
+        next_bucket = jnp.logical_and(bucket_end, probed < max_probes_u32)
+        exhausted = jnp.logical_and(bucket_end, probed >= max_probes_u32)
 
         def _next_bucket() -> Any:
             mask = capacity - SIZE_DTYPE(1)
@@ -157,19 +166,26 @@ def _hashtable_parallel_insert_internal(
         def _same_bucket() -> Any:
             return BucketIdxCls(
                 index=idx.index,
-                slot_index=SLOT_IDX_DTYPE(idx.slot_index + 1),
+                slot_index=jnp.where(
+                    exhausted,
+                    SLOT_IDX_DTYPE(table.bucket_size),
+                    SLOT_IDX_DTYPE(idx.slot_index + 1),
+                ),
             )
 
-        return jax.lax.cond(next_bucket, _next_bucket, _same_bucket)
+        new_idx = jax.lax.cond(next_bucket, _next_bucket, _same_bucket)
+        return new_idx, probed + bucket_size_u32 * next_bucket.astype(SIZE_DTYPE)
 
-    def _next_idx(idxs: Any, unupdateds: chex.Array) -> Any:
+    def _next_idx(
+        idxs: Any, unupdateds: chex.Array, probed: chex.Array
+    ) -> tuple[Any, chex.Array]:
         return jax.vmap(
-            lambda active, current_idx, step: jax.lax.cond(
+            lambda active, current_idx, step, current_probed: jax.lax.cond(
                 active,
-                lambda: _advance(current_idx, step),
-                lambda: current_idx,
+                lambda: _advance(current_idx, step, current_probed),
+                lambda: (current_idx, current_probed),
             )
-        )(unupdateds, idxs, probe_steps)
+        )(unupdateds, idxs, probe_steps, probed)
 
     valid_initial = index.slot_index < table.bucket_size
     flat_initial_slots = index.index * SIZE_DTYPE(
@@ -184,15 +200,15 @@ def _hashtable_parallel_insert_internal(
         jnp.logical_and(updatable, jnp.logical_not(valid_initial)),
     )
 
-    def _cond(val: tuple[Any, chex.Array, chex.Array]) -> chex.Array:
-        _, pending, probes = val
+    def _cond(val: tuple[Any, chex.Array, chex.Array, chex.Array]) -> chex.Array:
+        _, pending, probes, _ = val
         return jnp.logical_and(jnp.any(pending), probes < table.max_probes)
 
     def _body(
-        val: tuple[Any, chex.Array, chex.Array],
-    ) -> tuple[Any, chex.Array, chex.Array]:
-        idxs, pending, probes = val
-        updated_idxs = _next_idx(idxs, pending)
+        val: tuple[Any, chex.Array, chex.Array, chex.Array],
+    ) -> tuple[Any, chex.Array, chex.Array, chex.Array]:
+        idxs, pending, probes, probed = val
+        updated_idxs, probed = _next_idx(idxs, pending, probed)
 
         valid = updated_idxs.slot_index < table.bucket_size
         flat_updated_slots = updated_idxs.index * SIZE_DTYPE(
@@ -206,10 +222,12 @@ def _hashtable_parallel_insert_internal(
             jnp.logical_and(updatable, jnp.logical_not(unique_mask)),
             jnp.logical_and(updatable, jnp.logical_not(valid)),
         )
-        return updated_idxs, next_pending, probes + 1
+        return updated_idxs, next_pending, probes + 1, probed
 
-    index, pending, _ = jax.lax.while_loop(
-        _cond, _body, (index, pending, jnp.uint32(0))
+    index, pending, _, _ = jax.lax.while_loop(
+        _cond,
+        _body,
+        (index, pending, jnp.uint32(0), jnp.asarray(probed, dtype=SIZE_DTYPE)),
     )
 
     successful = jnp.logical_and(updatable, jnp.logical_not(pending))
@@ -441,7 +459,7 @@ def _hashtable_parallel_insert_jit(
         )
 
         initial_found = jnp.logical_not(unique_filled)
-        idx, found = _hashtable_lookup_parallel_internal(
+        idx, found, probed = _hashtable_lookup_parallel_internal(
             table,
             inputs,
             idx,
@@ -495,6 +513,7 @@ def _hashtable_parallel_insert_jit(
                 idx,
                 updatable,
                 fingerprints,
+                probed,
             )
 
         cond_found = jnp.asarray(found, dtype=jnp.bool_)
diff --git a/xtructure/hashtable/lookup.py b/xtructure/hashtable/lookup.py
index b514a57..f8b1fb3 100644
--- a/xtructure/hashtable/lookup.py
+++ b/xtructure/hashtable/lookup.py
@@ -96,12 +96,22 @@ def _hashtable_lookup_internal(
 
         bucket_full = filled_limit_u32 == bucket_size_u32
         should_stop = jnp.logical_or(new_found, jnp.logical_not(bucket_full))
+        # Only move on while the probe budget covers the next bucket, so that an
+        # exhausted search never points at a bucket that lookups do not visit.
+        has_budget = probes + bucket_size_u32 < max_probes_u32
 
         out_slot = cast(jax.Array, jnp.where(new_found, match_slot, filled_limit))
         next_bucket = (bucket_idx + probe_step) & mask
 
         updated_idx = BucketIdxCls(
-            index=cast(jax.Array, jnp.where(should_stop, bucket_idx, next_bucket)),
+            index=cast(
+                jax.Array,
+                jnp.where(
+                    jnp.logical_or(should_stop, jnp.logical_not(has_budget)),
+                    bucket_idx,
+                    next_bucket,
+                ),
+            ),
             slot_index=cast(
                 jax.Array,
                 jnp.where(should_stop, out_slot, SLOT_IDX_DTYPE(0)),
@@ -146,7 +156,7 @@ def _hashtable_lookup_parallel_internal(
     fingerprints: chex.Array,
     founds: chex.Array,
     active: chex.Array | None = None,
-) -> tuple[Any, chex.Array]:
+) -> tuple[Any, chex.Array, chex.Array]:
     if active is None:
         active = jnp.ones(inputs.shape.batch, dtype=jnp.bool_)
 
@@ -293,10 +303,10 @@ def _hashtable_lookup_parallel_internal(
         active = continue_mask
         return idxs, founds, probes, active
 
-    idxs, founds, _, _ = jax.lax.while_loop(
+    idxs, founds, probes, _ = jax.lax.while_loop(
         _cond, _body, (idxs, founds, probes, active)
     )
-    return idxs, founds
+    return idxs, founds, probes
 
 
 @jax.jit
@@ -320,7 +330,7 @@ def _hashtable_lookup_parallel_jit(
         )
         founds = jnp.zeros(batch_size, dtype=jnp.bool_)
 
-        idx, found = _hashtable_lookup_parallel_internal(
+        idx, found, _probes = _hashtable_lookup_parallel_internal(
             table,
             inputs,
             idxs,
-- 
2.43.0


From 57e813af2db320cef7a28dea70a3515d223153de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 03/26] fix: unique_mask dropped a valid row equal to the
 padding sentinel

Invalid rows are rewritten to the maximum key; a valid row that already holds
that key was grouped with them and lost its place when an invalid row sorted
first.
---
 .../dataclass_ops/unique_ops/optimized_unique_ops.py          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index d376481..317c5f7 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -170,6 +170,10 @@ def unique_mask(
         order = jnp.argsort(key_1d[perm_in], stable=True)
         return perm_in[order]
 
+    # A valid row may itself hash to MAX_KEY, so validity is the leading sort key:
+    # it keeps invalid rows last and never groups them with a valid row.
+    hashes.insert(0, jnp.logical_not(effective_filled).astype(jnp.uint32))
+
     # 5. Stable multi-pass argsort to avoid lexsort / multi-key lax.sort.
     # Start perm as arange to get smallest-index tie-breaking for free.
     perm = jnp.arange(batch_len_i, dtype=jnp.int32)
-- 
2.43.0


From 46065daad7c8c6a9b969107c372748818c819b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 04/26] fix: unique_mask ignored the tail bytes of
 aggregate-packed values

Values that differ only in bits past the last full 32-bit word were reported
as duplicates, and classes smaller than one word raised IndexError.
---
 .../dataclass_ops/unique_ops/optimized_unique_ops.py     | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index 317c5f7..9a7ab25 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -108,7 +108,14 @@ def unique_mask(
         def _key_fn(x):
             # Prefer aggregate-packed representation if available for density
             if hasattr(x, "packed") and hasattr(x, "bitpack_schema"):
-                return x.packed.words
+                packed = x.packed
+                # Bits past the last full word are stored in `tail`.
+                return jnp.concatenate(
+                    [
+                        jnp.asarray(packed.words, dtype=jnp.uint32).reshape(-1),
+                        jnp.asarray(packed.tail).astype(jnp.uint32).reshape(-1),
+                    ]
+                )
             return x.uint32ed
 
         key_fn_local = _key_fn
-- 
2.43.0


From 5fc066be667861b73e6b0f271a8a9c7d2200c4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 05/26] fix: unique_mask merged distinct wide rows whose top
 bits differ in two words

The four signature lanes only multiply by odd constants, so flipping the most
significant bit of any two words (e.g. the signs of two float32 entries) left
the 128-bit signature unchanged and a distinct row was reported as duplicate.
---
 .../dataclass_ops/unique_ops/optimized_unique_ops.py         | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index 9a7ab25..4c73651 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -9,6 +9,7 @@ import jax.numpy as jnp
 from jax import lax
 
 from ....xtructure_decorators import Xtructurable
+from ....xtructure_decorators.hash import _avalanche32
 
 
 def _hash_to_wide(keys: Any) -> list[jax.Array]:
@@ -58,6 +59,10 @@ def _hash_to_wide(keys: Any) -> list[jax.Array]:
             col = lax.dynamic_index_in_dim(keys, i, axis=1, keepdims=False).astype(
                 jnp.uint32
             )
+            # Multiplying by odd constants leaves the top bit in place, so without
+            # this mixing two top-bit flips (e.g. float signs) cancel out in all
+            # four lanes and distinct rows collide.
+            col = _avalanche32(col ^ (i.astype(jnp.uint32) * c1))
             hh1 = hh1 * c1 + col
             hh2 = hh2 * c2 + col
             hh3 = jnp.bitwise_xor(hh3, col) * c3
-- 
2.43.0


From 4b6372afe6805e890e930aac38505917ae379aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 06/26] fix: pytree flatten of a dataclass raised when another
 thread cached its shape

---
 xtructure/core/dataclass.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xtructure/core/dataclass.py b/xtructure/core/dataclass.py
index 7c1395f..7ee7fe5 100644
--- a/xtructure/core/dataclass.py
+++ b/xtructure/core/dataclass.py
@@ -220,7 +220,7 @@ def _flatten_with_path(dcls):
                 seen.add(name)
 
     extra_keys = [
-        k for k in dct.keys() if k not in seen and k not in _INTERNAL_CACHE_KEYS
+        k for k in list(dct) if k not in seen and k not in _INTERNAL_CACHE_KEYS
     ]
     extra_keys.sort()
     ordered_keys.extend(extra_keys)
@@ -275,7 +275,7 @@ def register_dataclass_type_with_jax_tree_util(
                     seen.add(name)
 
         extra_keys = [
-            k for k in dct.keys() if k not in seen and k not in _INTERNAL_CACHE_KEYS
+            k for k in list(dct) if k not in seen and k not in _INTERNAL_CACHE_KEYS
         ]
         extra_keys.sort()
         ordered_keys.extend(extra_keys)
@@ -318,7 +318,7 @@ def register_dataclass_type_with_jax_tree_util(
                     seen.add(name)
 
         extra_keys = [
-            k for k in dct.keys() if k not in seen and k not in _INTERNAL_CACHE_KEYS
+            k for k in list(dct) if k not in seen and k not in _INTERNAL_CACHE_KEYS
         ]
         extra_keys.sort()
         ordered_keys.extend(extra_keys)
-- 
2.43.0


From fcb9b4ca956499aab0d9b788a951c995cbdebba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 07/26] fix: dataclass instances could not be pickled once
 shape or dtype was read

---
 xtructure/core/dataclass.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/dataclass.py b/xtructure/core/dataclass.py
index 7ee7fe5..762d3c0 100644
--- a/xtructure/core/dataclass.py
+++ b/xtructure/core/dataclass.py
@@ -134,7 +134,13 @@ class _Dataclass:
             return dataclasses.replace(self, **kwargs)
 
         def _getstate(self):
-            return self.__dict__
+            # Derived caches are per instance and hold namedtuples that cannot be
+            # pickled; they are rebuilt on first access.
+            return {
+                k: v
+                for k, v in self.__dict__.copy().items()
+                if k not in _INTERNAL_CACHE_KEYS
+            }
 
         # Register the dataclass at definition. As long as the dataclass is defined
         # outside __main__, this is sufficient to make JAX's PyTree registry
-- 
2.43.0


From a8adbd680c40fb16293608180befa9a027707251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 08/26] fix: a failed or interrupted save destroyed the file it
 was replacing

np.savez_compressed truncated the target in place, so a full disk, an I/O error or
a crash partway through a save lost the previous checkpoint too. Write a temporary
file in the same directory, sync it, and rename it over the target.
---
 xtructure/io/io.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/xtructure/io/io.py b/xtructure/io/io.py
index 11679a2..e387ce3 100644
--- a/xtructure/io/io.py
+++ b/xtructure/io/io.py
@@ -3,6 +3,8 @@
 import dataclasses
 import importlib
 import os
+import shutil
+import threading
 from typing import Any, Dict, Tuple
 
 import jax.numpy as jnp
@@ -75,6 +77,32 @@ def _flatten_instance_for_save(
     return flat_data
 
 
+def _savez_atomic(path: str, arrays: Dict[str, np.ndarray]) -> None:
+    """Write `arrays` so that `path` always holds a complete file, old or new."""
+    target = os.fspath(path)
+    if not target.endswith(".npz"):
+        target = target + ".npz"  # Same naming rule as np.savez_compressed.
+    target = os.path.realpath(target)
+    tmp = os.path.join(
+        os.path.dirname(target),
+        f".xtructure-{os.getpid()}-{threading.get_ident()}.tmp",
+    )
+    try:
+        with open(tmp, "wb") as f:
+            np.savez_compressed(f, **arrays)
+            f.flush()
+            os.fsync(f.fileno())
+        if os.path.exists(target):
+            shutil.copymode(target, tmp)
+        os.replace(tmp, target)
+    except BaseException:
+        try:
+            os.unlink(tmp)
+        except OSError:
+            pass
+        raise
+
+
 def save(path: str, instance: Xtructurable, *, packed: bool = True):
     """
     Saves an xtructure dataclass instance to a compressed .npz file.
@@ -104,7 +132,7 @@ def save(path: str, instance: Xtructurable, *, packed: bool = True):
         os.makedirs(directory, exist_ok=True)
 
     # Save to a compressed .npz file
-    np.savez_compressed(path, **data_to_save)
+    _savez_atomic(path, data_to_save)
 
 
 def _unflatten_data_for_load(
-- 
2.43.0


From 78e9cdbfabbc6c38a2d3244a04dd6370b5845a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 09/26] fix: HashTable.build with hash_size_multiplier=1 could
 hold fewer items than capacity

---
 xtructure/hashtable/table.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xtructure/hashtable/table.py b/xtructure/hashtable/table.py
index 97a227f..f0e2dbb 100644
--- a/xtructure/hashtable/table.py
+++ b/xtructure/hashtable/table.py
@@ -29,7 +29,10 @@ def _hashtable_build_jit(
     hash_size_multiplier: int = 2,
     max_probes: int | None = None,
 ) -> "HashTable":
-    _target_cap = int(hash_size_multiplier * capacity / bucket_size)
+    _target_cap = max(
+        int(hash_size_multiplier * capacity / bucket_size),
+        -(-capacity // bucket_size),  # Never fewer slots than `capacity`.
+    )
     if _target_cap <= 1:
         _capacity = 1
     else:
-- 
2.43.0


From e00ce1f1492736b0c1659203d8894d42604f4020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 10/26] fix: HashTable.parallel_insert picked the wrong
 duplicate for integer unique_key >= 2**24

Masking with inf promoted integer costs to float32, so costs differing below its
precision compared equal and the lowest-cost duplicate was not the one kept.
---
 xtructure/hashtable/hash_utils.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/xtructure/hashtable/hash_utils.py b/xtructure/hashtable/hash_utils.py
index 66433c8..9980925 100644
--- a/xtructure/hashtable/hash_utils.py
+++ b/xtructure/hashtable/hash_utils.py
@@ -96,6 +96,15 @@ def _first_occurrence_mask(
     return jnp.logical_and(mask, active)
 
 
+def _max_of_dtype(dtype: Any) -> chex.Array:
+    """Largest value of `dtype`, so that masking keys does not change their dtype."""
+    if jnp.issubdtype(dtype, jnp.inexact):
+        return jnp.array(jnp.inf, dtype=dtype)
+    if dtype == jnp.bool_:
+        return jnp.array(True)
+    return jnp.array(jnp.iinfo(dtype).max, dtype=dtype)
+
+
 def _compute_unique_mask_from_uint32eds(
     uint32eds: chex.Array,
     filled: chex.Array,
@@ -272,14 +281,15 @@ def _compute_unique_mask_from_uint32eds(
             raise ValueError("unique_key must match uint32eds leading dimension.")
 
         sorted_unique_key = unique_key_arr[sorted_indices]
-        masked_key = jnp.where(sorted_filled, sorted_unique_key, jnp.inf)
+        key_max = _max_of_dtype(sorted_unique_key.dtype)
+        masked_key = jnp.where(sorted_filled, sorted_unique_key, key_max)
         min_keys = (
-            jnp.full((batch_len,), jnp.inf, dtype=masked_key.dtype)
+            jnp.full((batch_len,), key_max, dtype=masked_key.dtype)
             .at[group_id]
             .min(masked_key)
         )
         candidate_indices = jnp.where(
-            masked_key == min_keys[group_id],
+            jnp.logical_and(sorted_filled, masked_key == min_keys[group_id]),
             sorted_indices,
             batch_len_i32,
         )
@@ -418,14 +428,15 @@ def _compute_unique_mask_from_hash_pairs(
                 raise ValueError("unique_key must match hash arrays leading dimension.")
 
             sorted_unique_key = unique_key_arr[sorted_indices]
-            masked_key = jnp.where(sorted_filled, sorted_unique_key, jnp.inf)
+            key_max = _max_of_dtype(sorted_unique_key.dtype)
+            masked_key = jnp.where(sorted_filled, sorted_unique_key, key_max)
             min_keys = (
-                jnp.full((batch_len,), jnp.inf, dtype=masked_key.dtype)
+                jnp.full((batch_len,), key_max, dtype=masked_key.dtype)
                 .at[group_id]
                 .min(masked_key)
             )
             candidate_indices = jnp.where(
-                masked_key == min_keys[group_id],
+                jnp.logical_and(sorted_filled, masked_key == min_keys[group_id]),
                 sorted_indices,
                 batch_len_i32,
             )
-- 
2.43.0


From 573d62ee17680bbfa42f3e665c60a1c6b8a795b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 11/26] fix: HashTable GPU/TPU insert kernels ignored
 max_probes and lost items beyond it

---
 xtructure/hashtable/insert.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xtructure/hashtable/insert.py b/xtructure/hashtable/insert.py
index dadf1bf..a343093 100644
--- a/xtructure/hashtable/insert.py
+++ b/xtructure/hashtable/insert.py
@@ -471,14 +471,20 @@ def _hashtable_parallel_insert_jit(
 
         updatable = jnp.logical_and(jnp.logical_not(found), unique_filled)
 
+        # The kernels may probe every bucket; with a smaller probe budget they would
+        # place items where lookups never reach.
+        probes_all_buckets = table.max_probes >= table._capacity * table.bucket_size
+
         use_triton = (
-            jax.default_backend() == "gpu"
+            probes_all_buckets
+            and jax.default_backend() == "gpu"
             and table.bucket_size <= 32
             and triton_insert_enabled()
         )
 
         use_pallas = (
-            jax.default_backend() == "tpu"
+            probes_all_buckets
+            and jax.default_backend() == "tpu"
             and table.bucket_size <= 32
             and pallas_insert_enabled()
         )
-- 
2.43.0


From 3b64678d9143982c3e72cdf3c51438f949f9dfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 12/26] fix: unique_mask truncated float keys of wide key_fn
 results and merged distinct rows

---
 .../unique_ops/optimized_unique_ops.py          | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index 4c73651..66826c7 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -12,6 +12,20 @@ from ....xtructure_decorators import Xtructurable
 from ....xtructure_decorators.hash import _avalanche32
 
 
+def _as_uint32_columns(keys: jax.Array) -> jax.Array:
+    """Represent (N, K) keys as uint32 columns without losing any bit."""
+    if jnp.issubdtype(keys.dtype, jnp.floating):
+        # A value cast would truncate; equal floats (0.0 and -0.0) share their bits.
+        keys = jnp.where(keys == 0, jnp.zeros_like(keys), keys)
+        bits = jnp.finfo(keys.dtype).bits
+        uint_dtype = {8: jnp.uint8, 16: jnp.uint16, 32: jnp.uint32, 64: jnp.uint64}
+        keys = lax.bitcast_convert_type(keys, uint_dtype[bits])
+    if jnp.issubdtype(keys.dtype, jnp.integer) and keys.dtype.itemsize == 8:
+        # Trailing axis of size 2 holds the low and the high word.
+        return lax.bitcast_convert_type(keys, jnp.uint32).reshape((keys.shape[0], -1))
+    return keys.astype(jnp.uint32)
+
+
 def _hash_to_wide(keys: Any) -> list[jax.Array]:
     """Hash (N, K) uint32 keys into a fixed-width wide hash."""
     keys = jnp.asarray(keys)
@@ -25,6 +39,9 @@ def _hash_to_wide(keys: Any) -> list[jax.Array]:
     if k <= max_direct_cols:
         return [keys[:, i] for i in range(k)]
 
+    keys = _as_uint32_columns(keys)
+    k = keys.shape[1]
+
     if use_x64:
         # 128-bit via two uint64
         h1 = keys[:, 0].astype(jnp.uint64)
-- 
2.43.0


From 8aec88e2394b6ef55fab78e8ba0803a7333dc03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 13/26] fix: conditional updates with a narrow index dtype
 failed or were silently lost

---
 xtructure/core/xtructure_numpy/array_ops.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/array_ops.py b/xtructure/core/xtructure_numpy/array_ops.py
index aebea61..e5f9244 100644
--- a/xtructure/core/xtructure_numpy/array_ops.py
+++ b/xtructure/core/xtructure_numpy/array_ops.py
@@ -46,6 +46,13 @@ def _update_array_on_condition(
 
     indices_array = jnp.reshape(indices_array, (num_updates,))
     index_dtype = indices_array.dtype
+    if (
+        jnp.issubdtype(index_dtype, jnp.integer)
+        and jnp.iinfo(index_dtype).max < original_array.shape[0]
+    ):
+        # The out-of-bounds marker below must be representable.
+        indices_array = indices_array.astype(jnp.int32)
+        index_dtype = indices_array.dtype
     invalid_index = jnp.array(original_array.shape[0], dtype=index_dtype)
 
     # Enforce drop semantics for out-of-bounds 1D indices.
-- 
2.43.0


From 3e604505dc9d6f9a3a82c8ce19535a284113b0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 14/26] fix: set_as_condition swallowed unexpected errors and
 returned a half-updated instance

---
 xtructure/core/xtructure_decorators/indexing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_decorators/indexing.py b/xtructure/core/xtructure_decorators/indexing.py
index 7408932..7b39ca7 100644
--- a/xtructure/core/xtructure_decorators/indexing.py
+++ b/xtructure/core/xtructure_decorators/indexing.py
@@ -145,7 +145,7 @@ class _Updater:
                         continue
 
                 new_field_data[field_name] = original_field_value
-            except Exception:
+            except (AttributeError, TypeError, IndexError, KeyError, ValueError):
                 # Preserve legacy behavior: if a field can't be updated, keep original value.
                 new_field_data[field_name] = original_field_value
 
-- 
2.43.0


From e81c9984b465d5f992433ff6ce74cb752ed62cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 15/26] fix: key/value merge kernel read out of bounds when one
 side is empty

---
 xtructure/bgpq/merge_split/parallel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xtructure/bgpq/merge_split/parallel.py b/xtructure/bgpq/merge_split/parallel.py
index b213a8e..d95c149 100644
--- a/xtructure/bgpq/merge_split/parallel.py
+++ b/xtructure/bgpq/merge_split/parallel.py
@@ -333,6 +333,12 @@ def _get_merge_arrays_parallel_kv(
             return out_keys, out_vals
 
         key_dtype = jnp.result_type(ak.dtype, bk.dtype)
+        # The kernel reads one element of each side even when that side is exhausted.
+        if n == 0:
+            return bk.astype(key_dtype), list(bv_leaves)
+        if m == 0:
+            return ak.astype(key_dtype), list(av_leaves)
+
         ak = ak.astype(key_dtype)
         bk = bk.astype(key_dtype)
 
-- 
2.43.0


From fa1d39b4ee72e316a148256e3290f845f18a6a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 16/26] fix: io.load checks the checksum of every member before
 using the file

numpy reads as many elements as a member's header declares. When damage makes
that fewer than the member holds, the end of the member is never reached, its
CRC is never checked, and load silently returns wrong data.
---
 xtructure/io/io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xtructure/io/io.py b/xtructure/io/io.py
index e387ce3..448d46a 100644
--- a/xtructure/io/io.py
+++ b/xtructure/io/io.py
@@ -197,6 +197,11 @@ def load(path: str) -> Xtructurable:
                 "File is missing necessary xtructure metadata for loading."
             )
 
+        # Reading an array checks its checksum only if the array spans the whole member.
+        damaged = data.zip.testzip()
+        if damaged is not None:
+            raise ValueError(f"File is damaged: bad checksum for '{damaged}'.")
+
         module_name = str(data[METADATA_MODULE_KEY])
         class_name = str(data[METADATA_CLASS_NAME_KEY])
 
-- 
2.43.0


From bbc2c9a022e77104d0fdfcf66eea3545382c6d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:05 +0000
Subject: [PATCH 17/26] fix: to_uint8 packs an empty array to no bytes

packed_num_bytes and from_uint8 already define the empty case; to_uint8 divided
by the zero size, so an empty batch with bit-declared fields could not be saved.
---
 .../core/xtructure_decorators/aggregate_bitpack/bitpack.py     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py b/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
index 36bf01b..23df1db 100644
--- a/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
+++ b/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
@@ -145,6 +145,9 @@ def to_uint8(values: chex.Array, active_bits: int = 1) -> chex.Array:
     """
     assert 1 <= active_bits <= 32, f"active_bits must be 1-32, got {active_bits}"
 
+    if values.size == 0:
+        return jnp.zeros((0,), dtype=jnp.uint8)
+
     if active_bits == 1:
         flatten_input = values.reshape((-1,))
         if flatten_input.dtype != jnp.bool_:
-- 
2.43.0


From ea5757e04aba62bc639adc20fbf35849e6b097d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:39 +0000
Subject: [PATCH 18/26] fix: load restores bfloat16, float8 and int4 fields

.npz stores these as raw bytes, which load passed on to JAX, so a file saved
without complaint could never be loaded again.
---
 xtructure/io/io.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xtructure/io/io.py b/xtructure/io/io.py
index 448d46a..1550b98 100644
--- a/xtructure/io/io.py
+++ b/xtructure/io/io.py
@@ -173,7 +173,13 @@ def _unflatten_data_for_load(
                 field_values[field_name] = unpacked
             elif full_key in data:
                 # Load JAX array from NumPy array
-                field_values[field_name] = jnp.array(data[full_key])
+                value = data[full_key]
+                if value.dtype.kind == "V" and field_descriptor is not None:
+                    # .npz keeps bfloat16, float8 and int4 arrays as raw bytes.
+                    declared = np.dtype(field_descriptor.dtype)
+                    if declared.kind == "V" and declared.itemsize == value.itemsize:
+                        value = value.view(declared)
+                field_values[field_name] = jnp.array(value)
     return field_values
 
 
-- 
2.43.0


From b6c0cb4642a6b1c4fdda288ea6fb9d1b1fa8f843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:32 +0000
Subject: [PATCH 19/26] fix: unpack_field slices past the end, negative or
 reversed read garbage

---
 .../core/xtructure_decorators/aggregate_bitpack/__init__.py  | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py b/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
index 09c31f4..b584156 100644
--- a/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
+++ b/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
@@ -260,9 +260,8 @@ def add_aggregate_bitpack(cls: Type[T]) -> Type[T]:
         if indices is None:
             return jnp.arange(nvalues, dtype=jnp.int32)
         if isinstance(indices, slice):
-            start = 0 if indices.start is None else int(indices.start)
-            stop = nvalues if indices.stop is None else int(indices.stop)
-            step = 1 if indices.step is None else int(indices.step)
+            # Python slice semantics: negative bounds count from the end, bounds are clipped.
+            start, stop, step = indices.indices(nvalues)
             return jnp.arange(start, stop, step, dtype=jnp.int32)
         if isinstance(indices, (list, tuple, np.ndarray)):
             return jnp.asarray(indices, dtype=jnp.int32).reshape((-1,))
-- 
2.43.0


From 2301001ca55cd61590599cc9358c8ff6e7d76985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:32 +0000
Subject: [PATCH 20/26] fix: updates of instances with NumPy leaves kept the
 old values

---
 xtructure/core/xtructure_decorators/indexing.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_decorators/indexing.py b/xtructure/core/xtructure_decorators/indexing.py
index 7b39ca7..288e883 100644
--- a/xtructure/core/xtructure_decorators/indexing.py
+++ b/xtructure/core/xtructure_decorators/indexing.py
@@ -2,12 +2,18 @@ from operator import attrgetter
 from typing import Any, Type, TypeVar
 
 import jax.numpy as jnp
+import numpy as np
 
 from ..xtructure_numpy.array_ops import _update_array_on_condition
 
 T = TypeVar("T")
 
 
+def _updatable(value: Any) -> Any:
+    """NumPy arrays (e.g. after `jax.device_get`) have no `.at`; JAX arrays do."""
+    return jnp.asarray(value) if isinstance(value, np.ndarray) else value
+
+
 class _Updater:
     def __init__(self, obj_instance, index):
         self.obj_instance = obj_instance
@@ -59,7 +65,7 @@ class _Updater:
         ):
             try:
                 # Most common fast path: arrays and xtructure instances both expose `.at[...]`.
-                updater_ref = current_field_value.at[self.indices]
+                updater_ref = _updatable(current_field_value).at[self.indices]
                 if hasattr(updater_ref, "set"):
                     value_for_this_field = (
                         values_tuple[i] if values_tuple is not None else values_to_set
@@ -123,6 +129,7 @@ class _Updater:
                 else value_to_conditionally_set
             )
 
+            original_field_value = _updatable(original_field_value)
             try:
                 if hasattr(original_field_value, "at"):
                     nested_updater = original_field_value.at[self.indices]
-- 
2.43.0


From 500d5512dbeabe52a9b5fa8bf625357a6f966f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:32 +0000
Subject: [PATCH 21/26] fix: packed fields of an empty batch could not be read
 or written

---
 .../xtructure_decorators/bitpack_accessors.py  | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/bitpack_accessors.py b/xtructure/core/xtructure_decorators/bitpack_accessors.py
index ac5fbf6..4ad5b6c 100644
--- a/xtructure/core/xtructure_decorators/bitpack_accessors.py
+++ b/xtructure/core/xtructure_decorators/bitpack_accessors.py
@@ -103,12 +103,11 @@ def _unpack_value(
             f"got {packed_arr.shape[-1]}."
         )
 
-    flat = packed_arr.reshape((-1, expected_packed_len))
+    # Nothing to unpack in an empty field or an empty batch.
+    if num_values == 0 or 0 in batch_shape:
+        return jnp.zeros(batch_shape + unpacked_shape, dtype=unpacked_dtype)
 
-    if num_values == 0:
-        out_dtype = jnp.bool_ if packed_bits == 1 else jnp.uint8
-        out = jnp.zeros((flat.shape[0], 0), dtype=out_dtype)
-        return out.reshape(batch_shape + unpacked_shape)
+    flat = packed_arr.reshape((-1, expected_packed_len))
 
     if packed_bits == 1:
         bits = jnp.unpackbits(flat, count=num_values, bitorder="little", axis=1)
@@ -183,12 +182,11 @@ def _pack_value(
     num_values = int(np.prod(np.array(unpacked_shape, dtype=np.int64)))
     expected_packed_len = packed_num_bytes(num_values, packed_bits)
 
-    flat = arr.reshape((-1, num_values))
+    # Nothing to pack in an empty field or an empty batch.
+    if num_values == 0 or 0 in batch_shape:
+        return jnp.zeros(batch_shape + (expected_packed_len,), dtype=jnp.uint8)
 
-    if num_values == 0:
-        return jnp.zeros((flat.shape[0], expected_packed_len), dtype=jnp.uint8).reshape(
-            batch_shape + (expected_packed_len,)
-        )
+    flat = arr.reshape((-1, num_values))
 
     if packed_bits == 1:
         bits = flat
-- 
2.43.0


From 981081dbfb23155b5d19e7aadb13c12b705318ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:32 +0000
Subject: [PATCH 22/26] fix: unpacking an empty stream of wide values returned
 the wrong dtype

---
 .../core/xtructure_decorators/aggregate_bitpack/bitpack.py    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py b/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
index 23df1db..b5d8ed1 100644
--- a/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
+++ b/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
@@ -225,7 +225,9 @@ def from_uint8(
         # Preserve dtype semantics even for empty tensors.
         if active_bits == 1:
             return jnp.zeros(target_shape, dtype=jnp.bool_)
-        return jnp.zeros(target_shape, dtype=jnp.uint8)
+        return jnp.zeros(
+            target_shape, dtype=jnp.uint8 if active_bits <= 8 else jnp.uint32
+        )
 
     if active_bits == 1:
         bits = jnp.unpackbits(
-- 
2.43.0


From 5290adc052e5ea1465faecf620cbc71ab3900c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:32 +0000
Subject: [PATCH 23/26] fix: from_tuple passed the fields to the constructor as
 one argument

---
 xtructure/core/dataclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xtructure/core/dataclass.py b/xtructure/core/dataclass.py
index 762d3c0..6824c90 100644
--- a/xtructure/core/dataclass.py
+++ b/xtructure/core/dataclass.py
@@ -125,7 +125,7 @@ class _Dataclass:
             )
 
         def _from_tuple(args):
-            return dcls(zip(dcls.__dataclass_fields__.keys(), args))
+            return dcls(**dict(zip(dcls.__dataclass_fields__.keys(), args)))
 
         def _to_tuple(self):
             return tuple(getattr(self, k) for k in self.__dataclass_fields__.keys())
-- 
2.43.0


From 25f86ecb049f6d95b294cfbf9ed01524663a0eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:30 +0000
Subject: [PATCH 24/26] fix: update_on_condition rejected instances with NumPy
 leaves

---
 xtructure/core/xtructure_numpy/array_ops.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/array_ops.py b/xtructure/core/xtructure_numpy/array_ops.py
index e5f9244..1452a46 100644
--- a/xtructure/core/xtructure_numpy/array_ops.py
+++ b/xtructure/core/xtructure_numpy/array_ops.py
@@ -16,6 +16,10 @@ def _update_array_on_condition(
 
     This is an internal utility function for array-level conditional updates.
     """
+    # NumPy arrays (e.g. after `jax.device_get`) have no `.at`; JAX arrays do.
+    if isinstance(original_array, np.ndarray):
+        original_array = jnp.asarray(original_array)
+
     # For advanced indexing, reshape the array to flatten the batch dimensions
     # and compute on the flattened version, then reshape back.
     if isinstance(indices, tuple) and hasattr(original_array, "shape"):
-- 
2.43.0


From ad061d17a21eb738e90127614a9fa2260f7f6a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:20 +0000
Subject: [PATCH 25/26] fix: iterating over a batch never ended

Python iterated through __getitem__ until IndexError, but JAX clamps
out-of-bounds indices, so 'for row in batch' and list(batch) never stopped.
---
 xtructure/core/xtructure_decorators/shape.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/xtructure/core/xtructure_decorators/shape.py b/xtructure/core/xtructure_decorators/shape.py
index b6511dc..98607cf 100644
--- a/xtructure/core/xtructure_decorators/shape.py
+++ b/xtructure/core/xtructure_decorators/shape.py
@@ -149,6 +149,22 @@ def add_shape_dtype_len(cls: Type[T]) -> Type[T]:
 
     setattr(cls, "__len__", get_len)
 
+    def get_iter(self):
+        """Iterate over the first batch dimension.
+
+        Without this, Python would iterate through `__getitem__` until it raises
+        IndexError, which never happens because JAX clamps out-of-bounds indices.
+        """
+        batch = self.shape.batch
+        if batch == () or batch == -1:
+            raise TypeError(
+                f"iteration is only defined for BATCHED {cls.__name__} instances. "
+                f"shape={self.shape}"
+            )
+        return (self[i] for i in range(batch[0]))
+
+    setattr(cls, "__iter__", get_iter)
+
     def get_structured_type(self) -> StructuredType:
         try:
             return self._structured_type_cache
-- 
2.43.0


From f5e7fef966bcfb03d4ea8c57c5439f6fc5d0bcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:35 +0000
Subject: [PATCH 26/26] fix: HashTable.parallel_insert gave up on items
 although slots were free

The insertion loop stopped after max_probes rounds for the whole batch. An item
that loses its slot in a late round still has its own probes left, so a batch that
fills the table could leave items out while slots stay free.
---
 xtructure/hashtable/insert.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/xtructure/hashtable/insert.py b/xtructure/hashtable/insert.py
index a343093..ba290d7 100644
--- a/xtructure/hashtable/insert.py
+++ b/xtructure/hashtable/insert.py
@@ -200,14 +200,20 @@ def _hashtable_parallel_insert_internal(
         jnp.logical_and(updatable, jnp.logical_not(valid_initial)),
     )
 
-    def _cond(val: tuple[Any, chex.Array, chex.Array, chex.Array]) -> chex.Array:
-        _, pending, probes, _ = val
-        return jnp.logical_and(jnp.any(pending), probes < table.max_probes)
+    def _cond(val: tuple[Any, chex.Array, chex.Array]) -> chex.Array:
+        # The probe budget is per item: an item displaced in a late round still has
+        # its remaining buckets to try, so rounds are not a bound on their own. Every
+        # round advances each pending item, so all settle or run out eventually.
+        idxs, pending, probed = val
+        out_of_probes = jnp.logical_and(
+            idxs.slot_index >= table.bucket_size, probed >= max_probes_u32
+        )
+        return jnp.any(jnp.logical_and(pending, jnp.logical_not(out_of_probes)))
 
     def _body(
-        val: tuple[Any, chex.Array, chex.Array, chex.Array],
-    ) -> tuple[Any, chex.Array, chex.Array, chex.Array]:
-        idxs, pending, probes, probed = val
+        val: tuple[Any, chex.Array, chex.Array],
+    ) -> tuple[Any, chex.Array, chex.Array]:
+        idxs, pending, probed = val
         updated_idxs, probed = _next_idx(idxs, pending, probed)
 
         valid = updated_idxs.slot_index < table.bucket_size
@@ -222,12 +228,12 @@ def _hashtable_parallel_insert_internal(
             jnp.logical_and(updatable, jnp.logical_not(unique_mask)),
             jnp.logical_and(updatable, jnp.logical_not(valid)),
         )
-        return updated_idxs, next_pending, probes + 1, probed
+        return updated_idxs, next_pending, probed
 
-    index, pending, _, _ = jax.lax.while_loop(
+    index, pending, _ = jax.lax.while_loop(
         _cond,
         _body,
-        (index, pending, jnp.uint32(0), jnp.asarray(probed, dtype=SIZE_DTYPE)),
+        (index, pending, jnp.asarray(probed, dtype=SIZE_DTYPE)),
     )
 
     successful = jnp.logical_and(updatable, jnp.logical_not(pending))
-- 
2.43.0

