#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one source."""

import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def P(id, title, statement, over, text, why, files, mech, observe, claimed=True, technique="", note="", reason="", level="exploration"):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                observe=observe, claimed=claimed, technique=technique, note=note, reason=reason, level=level)


DEVNOTE = ("Seeded search, not exhaustive. Trusts JAX tracing, XLA CPU, the reference model and the simulated device's list of "
           "freedoms; GPU/TPU code generation is not run.")
DISKNOTE = ("Seeded search. Trusts the system-call shim and its page-cache model (ordered directory journal, data durable at fsync); "
            "writes through memory maps or raw C streams would not be seen.")
PROPS = [
    P("P01", "A stack gives back exactly what was pushed, last in first out",
      "For every history of pushes (single items or batches), pops, peeks and indexed reads within capacity, a stack returns "
      "exactly the pushed values, bit for bit, last in first out (a batch comes back in the order it was pushed), and its size equals the number of "
      "items it holds. This holds for every item type and whether each step runs eagerly, inside jit, inside scan or under vmap.",
      ["histories", "inputs", "configurations"],
      "all histories of stack operations within capacity, over all value classes, batch sizes and execution modes",
      "the tests push and pop a handful of fixed items once; the claim ranges over unbounded histories, item layouts and execution modes",
      ["xtructure/stack/stack.py", "xtructure/core"],
      [("index arithmetic of push/pop/peek", "xtructure/stack/stack.py"), ("batched indexed update", "xtructure/core/xtructure_decorators/indexing.py")],
      ["popped, peeked and indexed values, size"],
      technique="deterministic simulation of operation histories against a stack model, with restarts, interrupts and a simulated device", note=DEVNOTE),
    P("P02", "A queue gives back exactly what was enqueued, first in first out",
      "For every history of enqueues (single items or batches), dequeues, peeks, indexed reads and clears within capacity, a queue "
      "returns exactly the enqueued values, bit for bit, in first-in-first-out order, and its size equals the number of items waiting. After a clear "
      "the whole capacity is available again and no earlier item is ever returned.",
      ["histories", "inputs", "configurations"],
      "all histories of queue operations in which at most the capacity is enqueued between clears, over all value classes and execution modes",
      "the tests enqueue and dequeue fixed items once; the claim ranges over unbounded histories",
      ["xtructure/queue/queue.py", "xtructure/core"],
      [("head/tail arithmetic", "xtructure/queue/queue.py"), ("batched indexed update", "xtructure/core/xtructure_decorators/indexing.py")],
      ["dequeued, peeked and indexed values, size"],
      technique="deterministic simulation of operation histories against a queue model, with restarts, interrupts and a simulated device", note=DEVNOTE),
    P("P03", "The priority queue always returns the smallest stored keys, and all of them",
      "After any history of batch insertions (full or padded) and deletions within capacity, a deletion returns exactly the "
      "batch-size smallest keys stored (fewer only if fewer are stored, padded with infinity), in ascending order. Repeated deletion "
      "returns every stored key exactly once in ascending order, and the reported size always equals the number of stored elements.",
      ["histories", "inputs", "configurations", "schedules"],
      "all histories of insert and delete within capacity, all batch sizes, key types, merge and sort settings and device execution orders",
      "the heap tests are outside the reliable baseline and use a few fixed sizes; partial batches, ties and long interleavings are unsampled",
      ["xtructure/bgpq"],
      [("heapify after insert and delete", "xtructure/bgpq/_insert.py, xtructure/bgpq/_delete.py"), ("merge of sorted runs", "xtructure/bgpq/_merge.py, xtructure/bgpq/merge_split"),
       ("insertion buffer", "xtructure/bgpq/_insert.py")],
      ["keys returned by deletion, size"],
      technique="deterministic simulation of heap histories against a sorted-multiset model, incl. simulated GPU merge kernels", note=DEVNOTE),
    P("P04", "Every key leaves the priority queue with the value it was inserted with",
      "In every history within capacity, each key returned by the priority queue is accompanied by a value that was inserted with that "
      "key and has not been returned yet, including among equal keys and for multi-field, nested or bit-packed values. No element is lost, "
      "duplicated or given the value of another, whichever merge backend and device execution order is used.",
      ["histories", "inputs", "configurations", "schedules"],
      "all histories with ties and repeated values, all value classes, all key/value merge backends, all device execution orders",
      "tests check keys mostly, with a few distinct values; ties and kernel backends cannot be reached on the CPU test machine",
      ["xtructure/bgpq"],
      [("key/value reorder", "xtructure/bgpq/_merge.py"), ("value-carrying merge kernels", "xtructure/bgpq/merge_split/parallel.py"),
       ("sort with payload", "xtructure/bgpq/_utils.py")],
      ["key/value pairs returned by deletion"],
      technique="deterministic simulation of heap histories against a multiset-of-pairs model, incl. simulated GPU merge kernels", note=DEVNOTE),
    P("P05", "A full priority queue sheds only large keys, and only when it is full",
      "Inserting into a priority queue that lacks room for the batch drops at most one batch worth of elements and never leaves it holding fewer elements than its "
      "capacity. None of the batch-size smallest keys among the stored and inserted ones is dropped, and everything kept still "
      "comes out in ascending key order with its own value.",
      ["histories", "inputs", "configurations"],
      "all histories that overflow the heap, at all capacities, batch sizes and key types",
      "no reliable test fills a heap beyond capacity and then drains it",
      ["xtructure/bgpq/_insert.py"],
      [("replacement of the worst leaf when full", "xtructure/bgpq/_insert.py"), ("root merge before insertion", "xtructure/bgpq/_insert.py")],
      ["content drained after every overflowing insert"],
      technique="deterministic simulation of overflowing heap histories with a drain after every overflow", note=DEVNOTE),
    P("P07", "A hash table is an exact set with stable indices",
      "After any history of single and batched insertions and lookups, a lookup finds a value if and only if it was inserted, and an insertion is reported "
      "as new if and only if the value was absent. The index reported for a value never changes, no two values share an index, reading the table "
      "at that index returns the value bit for bit, and the size equals the number of distinct values stored.",
      ["histories", "inputs", "configurations"],
      "all histories of insert, batched insert, lookup and indexed read, over value classes, table geometries, seeds, sort settings and execution modes",
      "tests insert one or two batches of random values; the claim ranges over histories, near-identical values and geometries",
      ["xtructure/hashtable"],
      [("probing and slot reservation", "xtructure/hashtable/insert.py"), ("fingerprint and value comparison", "xtructure/hashtable/lookup.py"),
       ("hashing of values", "xtructure/core/xtructure_decorators/hash.py")],
      ["inserted/found flags, indices, table[index], size"],
      technique="deterministic simulation of table histories against a dictionary model, with restarts, interrupts and a simulated device", note=DEVNOTE),
    P("P08", "Duplicates inside one inserted batch are merged onto the cheapest copy",
      "When a batch contains the same value several times, exactly one valid row of it is reported unique: the one with the smallest "
      "priority key, the earliest row among equals; every other copy reports the same table index as that row. Rows marked "
      "not valid are never inserted, never reported unique and never influence the others.",
      ["inputs", "histories", "configurations", "schedules"],
      "all batches with duplicates, validity masks and priority keys, on all prior table contents, in all deduplication and sort modes and device execution orders",
      "tests use a few fixed duplicate patterns; ties, unstable sorts, masked duplicates and wide values are not sampled together",
      ["xtructure/hashtable/hash_utils.py", "xtructure/hashtable/insert.py"],
      [("in-batch deduplication", "xtructure/hashtable/hash_utils.py"), ("index propagation to duplicates", "xtructure/hashtable/insert.py")],
      ["inserted mask, unique mask, indices"],
      technique="deterministic simulation of duplicate-heavy batches under unstable device sorts against a reference model", note=DEVNOTE),
    P("P09", "Hash collisions never merge, hide or lose values",
      "Even when different values have the same hash, the same fingerprint or the same bucket, a hash table in its default and exact modes keeps them apart: "
      "each is inserted, found, counted and read back on its own.",
      ["inputs", "histories", "configurations"],
      "all sets of values with colliding hashes, up to every value hashing alike, in all table geometries",
      "full hash collisions have probability about 2^-32 per pair, so tests with random values never meet one",
      ["xtructure/hashtable/hash_utils.py", "xtructure/hashtable/lookup.py", "xtructure/hashtable/insert.py"],
      [("collision detection and fallback", "xtructure/hashtable/hash_utils.py"), ("value comparison after fingerprint match", "xtructure/hashtable/lookup.py")],
      ["inserted/found flags, indices, table[index]"],
      technique="deterministic simulation with a degraded hash function (fault) and with real colliding values", note=DEVNOTE),
    P("P10", "Parallel slot reservation on accelerators is race-free",
      "For every interleaving of the parallel workers that reserve table slots on a GPU or TPU, each new value of a batch gets its own slot, nothing "
      "already stored is overwritten, no memory outside the table is touched, every worker finishes, and the result is as if the "
      "values had been inserted one by one.",
      ["schedules", "histories", "configurations"],
      "all interleavings of grid programs at single memory-access granularity, on all table contents and geometries",
      "these kernels never run in the test suite, which has only a CPU",
      ["xtructure/hashtable/insert_triton.py", "xtructure/hashtable/insert_pallas.py", "xtructure/hashtable/insert.py"],
      [("atomic reservation of occupancy bits", "xtructure/hashtable/insert_triton.py"), ("bucket-owner rounds", "xtructure/hashtable/insert_pallas.py")],
      ["reserved slots, occupancy, table content after the insertion"],
      technique="deterministic simulation: kernel interpreter with a seeded scheduler at memory-access granularity", note=DEVNOTE),
    P("P11", "A hash table holds its capacity, and a failed insertion changes nothing",
      "While no more distinct values than the declared capacity are stored and no probe limit was set, every insertion succeeds. Beyond that, or "
      "with a probe limit, an insertion may be refused, but then it is reported as not inserted, the value is not found later, the size does "
      "not count it, and everything stored before stays findable at its index.",
      ["histories", "configurations", "inputs"],
      "all histories up to and beyond capacity, all capacities, bucket sizes, size multipliers and probe limits",
      "tests stay far below capacity and use the default probe limit",
      ["xtructure/hashtable/table.py", "xtructure/hashtable/insert.py", "xtructure/hashtable/lookup.py"],
      [("sizing of the table", "xtructure/hashtable/table.py"), ("probe limit in insertion and lookup", "xtructure/hashtable/insert.py, xtructure/hashtable/lookup.py")],
      ["inserted flags, found flags, size"],
      technique="deterministic simulation of table histories up to and beyond capacity against a dictionary model", note=DEVNOTE),
    P("P06", "Merging sorted runs loses, duplicates and mispairs nothing",
      "Merging two sorted runs of keys, of any lengths and with any ties, returns all keys of both in ascending order together with each key's own "
      "value or source index, each exactly once. On a GPU this holds for every order in which the parallel merge programs run, every block size and value packing, "
      "and no program reads or writes outside the arrays.",
      ["schedules", "inputs", "configurations"],
      "all pairs of sorted runs, key types, value layouts, block sizes, unroll and packing settings, and all interleavings of grid programs",
      "the parallel merge kernels need a GPU and are never executed by the test suite",
      ["xtructure/bgpq/merge_split", "xtructure/bgpq/_merge.py"],
      [("merge-path partition", "xtructure/bgpq/merge_split/common.py"), ("block merge kernels", "xtructure/bgpq/merge_split/parallel.py"),
       ("value gather and split", "xtructure/bgpq/_merge.py")],
      ["merged keys, indices and values"],
      technique="deterministic simulation: kernel interpreter with a seeded scheduler at memory-access granularity, against a multiset oracle", note=DEVNOTE),
    P("P12", "unique_mask keeps exactly one row of every distinct value, the cheapest one",
      "Among the valid rows of a batch (filled and with a cost below infinity), unique_mask selects exactly one row per distinct value: the row with the lowest cost, the "
      "earliest among equals. Invalid rows are never selected and never influence others, and the returned indices and inverse map every valid row to the "
      "selected row of its own value. This holds for all value types, widths and key functions.",
      ["inputs", "schedules", "configurations"],
      "all batches with duplicates, near-identical rows, masks and costs, all value classes and key functions, all execution modes and device execution orders",
      "tests use short fixed batches; wide, packed or adversarially similar rows and unstable device execution are not sampled",
      ["xtructure/core/xtructure_numpy/dataclass_ops/unique_ops"],
      [("wide hashing and stable sort", "xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py")],
      ["mask, indices, inverse"],
      technique="deterministic simulation of unique_mask on a simulated device and under jit/vmap against a reference model", note=DEVNOTE),
    P("P13", "A conditional update writes exactly the first true row of each index",
      "A conditional indexed update writes, for every index, the value of the first update row whose condition is true, in every field of the record and whatever the integer type of the "
      "indices; it touches no other row, ignores one-dimensional indices outside the batch, and leaves the original batch unchanged. "
      "Plain indexed updates and reads of a batch address the same rows in all fields.",
      ["inputs", "histories", "schedules", "configurations"],
      "all histories of conditional and plain indexed updates and reads with duplicate indices, over value classes, batch shapes, index types and device execution orders",
      "tests use small batches with int32 indices on a device that applies updates in order",
      ["xtructure/core/xtructure_numpy/array_ops.py", "xtructure/core/xtructure_decorators/indexing.py", "xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py"],
      [("first-true-wins selection", "xtructure/core/xtructure_numpy/array_ops.py"), ("per-field update", "xtructure/core/xtructure_decorators/indexing.py")],
      ["content of the updated and of the original batch"],
      technique="deterministic simulation of update histories on a simulated device against a sequential model", note=DEVNOTE),
    P("P14", "Old versions of a container are never changed by later operations",
      "Every operation returns a new container and leaves the one it was called on unchanged: any version kept by the caller, at any point of a "
      "branching history, still has the same content and still answers every query as it did when it was created. This holds too when an operation on it fails or is interrupted.",
      ["histories", "fault_sequences"],
      "all branching histories over all containers, with interruptions at any point of an operation",
      "tests use each version once and never look back",
      ["xtructure/stack/stack.py", "xtructure/queue/queue.py", "xtructure/bgpq", "xtructure/hashtable", "xtructure/core"],
      [("functional updates", "xtructure/core/xtructure_decorators/indexing.py"), ("no buffer donation in jitted operations", "xtructure/*")],
      ["content and query results of every version after the whole history"],
      technique="deterministic simulation of branching version histories with interrupts, re-checking old versions", note=DEVNOTE),
    P("P18", "A save is all or nothing, whatever the disk does",
      "Whenever a save fails, is interrupted, or the process or machine dies in the middle of it, the file at that path afterwards loads as exactly the previously saved "
      "value or exactly the new one (or is still absent if there was none), never as anything else. A save that returns normally has stored the new value, and one that could not store it raises.",
      ["crash_points", "fault_sequences", "histories"],
      "all sequences of saves to the same and other paths with an I/O error, short write, full disk, interrupt, process crash or power loss at any system call",
      "tests save once to a healthy disk; the claim ranges over every crash and fault point of the save",
      ["xtructure/io/io.py", "xtructure/core/xtructure_decorators/io.py"],
      [("write aside, sync, rename", "xtructure/io/io.py")],
      ["what load returns for the path after the fault"],
      technique="deterministic simulation of the disk at system-call level with seeded fault and crash points and a page-cache model", note=DISKNOTE),
    P("P19", "A damaged file is reported, never silently misread",
      "Loading a file that was truncated, overwritten, zeroed, bit-flipped or mixed with another version, or whose reads fail, either raises an "
      "error or returns exactly the saved value; it never returns an instance with other contents. Reads that merely return fewer bytes than asked succeed.",
      ["inputs", "fault_sequences"],
      "all saved values, and all truncations, bit flips, overwritten sectors, mixed versions and failing or short reads",
      "tests load only intact files",
      ["xtructure/io/io.py"],
      [("checksum verification", "xtructure/io/io.py"), ("reassembly of fields", "xtructure/io/io.py")],
      ["value returned by load, or the error raised"],
      technique="deterministic simulation of a corrupting disk with seeded damage", note=DISKNOTE),
    P("P20", "Saving and loading returns the identical value, in any process",
      "Loading a saved instance returns one of the same class with bit-identical arrays, dtypes and shapes for every field, nested or packed, for every batch shape including "
      "empty batches, with on-disk packing on or off, by method or function, after overwriting an older file, and in another process. Loading through a different class is refused.",
      ["inputs", "configurations", "histories"],
      "all classes, field types, declared bit widths, batch shapes, packing settings and sequences of saves over the same paths by several processes",
      "tests round-trip a few small instances in one process",
      ["xtructure/io/io.py", "xtructure/core/xtructure_decorators/io.py", "xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py"],
      [("flattening and reassembly", "xtructure/io/io.py"), ("on-disk bit packing", "xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py")],
      ["class, dtype, shape and bytes of every loaded field"],
      technique="deterministic simulation of save/load histories over several processes against the saved value", note=DISKNOTE),
    P("P23", "Concurrent saves and loads of one path behave as if one at a time",
      "When several threads save to and load from the same path at once, and some of the savers die midway, every load returns one complete saved value, or reports that there is none yet, in an order "
      "consistent with some one-at-a-time execution, and the file left at the end is the complete value of a last save.",
      ["schedules", "crash_points"],
      "all interleavings of the system calls of several savers and loaders, with savers dying at any of them",
      "tests never run two saves or loads at once",
      ["xtructure/io/io.py"],
      [("private temporary file and rename", "xtructure/io/io.py")],
      ["values returned by loads and the final file"],
      technique="deterministic simulation: seeded thread scheduler at system-call granularity, linearizability check", note=DISKNOTE),
    P("P15", "Work continues in another process from the bytes of a container",
      "A container or instance written out as bytes by one process and restored in another behaves there exactly like the original: any process can carry out the next operation, a repeated or "
      "re-sent request gives the identical result wherever it runs, and a crash of a process loses nothing but its unanswered request. Interpreter hash seeds and warm or cold caches make no difference.",
      ["histories", "schedules", "crash_points", "fault_sequences"],
      "all histories of container operations handed between processes, with crashes, duplicated, lost and late messages",
      "the tests never move a container between processes",
      ["xtructure/core/dataclass.py", "xtructure/core/xtructure_decorators/shape.py", "xtructure/stack", "xtructure/queue", "xtructure/hashtable", "xtructure/bgpq"],
      [("pickling and pytree registration", "xtructure/core/dataclass.py"), ("per-instance caches kept out of the state", "xtructure/core/dataclass.py")],
      ["results of operations and content of containers in every process"],
      technique="deterministic simulation of a small cluster: seeded messages, duplication, loss and process crashes, against container models",
      note="Seeded search. Processes are real interpreters of this sandbox; the network between them is simulated."),
    P("P16", "A program gives the same bits however it is executed",
      "A sequence of container operations returns bit-identical values and leaves a bit-identical container whether it runs step by step, with each step compiled, with compilation disabled, as one scan, in lock step "
      "with another program under vmap, split by a checkpoint, or in another process, and whatever other containers of other sizes and settings were used before.",
      ["histories", "configurations", "schedules"],
      "all short programs over all containers, all pairs of execution modes and all prior activity of the process",
      "tests run each call in one mode in one process history",
      ["xtructure/stack", "xtructure/queue", "xtructure/hashtable", "xtructure/bgpq", "xtructure/core"],
      [("static configuration in jit and lru caches", "xtructure/*"), ("no trace-time dependence on values", "xtructure/*")],
      ["every returned array and every leaf of the container, byte for byte"],
      technique="deterministic simulation of the same program under different execution schedules, processes and prior activity, compared bitwise",
      note="Seeded search; on the CPU backend of this sandbox. Accelerator execution orders may legitimately change the order of equal keys and are left to P03-P10."),
    P("P17", "Hashes depend on content and seed alone, and tell values apart",
      "hash, hash_pair, their variants that also return the lanes, uint32ed and bytes of an instance depend only on its content, its class and the seed: not on the process, the execution mode, how the "
      "instance was obtained (batch row, update, checkpoint, host memory) or the streaming settings. All variants agree with each other, and different contents have different lanes and bytes.",
      ["inputs", "histories", "configurations", "schedules"],
      "all values of all classes, all seeds, all routes by which the value was obtained, all execution modes, streaming settings and processes",
      "tests compare a few hashes inside one process under one setting",
      ["xtructure/core/xtructure_decorators/hash.py", "xtructure/hashtable/hash_utils.py"],
      [("lane layout", "xtructure/core/xtructure_decorators/hash.py"), ("streaming reducer", "xtructure/core/xtructure_decorators/hash.py")],
      ["hash, hash_pair, hash_with_uint32ed, hash_pair_with_uint32ed, uint32ed, bytes"],
      technique="deterministic simulation of many routes to the same value over several crashing processes, checked for functional dependence", note=DEVNOTE),
    P("P21", "Threads may share classes, instances and containers",
      "When several threads use the same value class, the same instances and the same containers at once, every call returns what it returns when run alone, no call fails because of another, and afterwards "
      "the shared objects are unchanged and work as before. This includes the first use of a class, when everything computed on demand is computed.",
      ["schedules"],
      "all interleavings, at lines of the library, of two or three threads making any calls on shared objects",
      "the tests are single-threaded",
      ["xtructure/core/dataclass.py", "xtructure/core/xtructure_decorators", "xtructure/io/io.py"],
      [("lazily computed attributes", "xtructure/core/xtructure_decorators/shape.py"), ("module and class caches", "xtructure/core/xtructure_decorators/aggregate_bitpack")],
      ["result of every call, compared with an undisturbed run"],
      technique="deterministic simulation: seeded scheduler over real threads, preempting at library lines",
      note="Seeded search. Preemption happens between lines of the library's Python code outside JAX tracing; JAX's own thread safety is assumed."),
    P("P22", "A failed or interrupted call leaves everything usable",
      "When a call on a value class, instance or container fails or is interrupted at any point (keyboard interrupt, failed allocation, recursion limit, invalid arguments), its arguments are unchanged, the error reaches the caller "
      "instead of a wrong result, and repeating the call, or making any other call later, returns what it would have returned without the failure.",
      ["crash_points", "fault_sequences", "histories"],
      "all sequences of library calls in which any call fails at any line of the library and is retried",
      "tests do not fail calls midway",
      ["xtructure/core", "xtructure/io", "xtructure/stack", "xtructure/queue", "xtructure/hashtable", "xtructure/bgpq"],
      [("lazily computed attributes and caches", "xtructure/core/xtructure_decorators"), ("error handling in updates", "xtructure/core/xtructure_decorators/indexing.py")],
      ["result of retried and later calls, content of the arguments"],
      technique="deterministic simulation with exceptions injected at seeded lines of the library, compared with an undisturbed run",
      note="Seeded search. Failures are raised at line boundaries of the library's Python code; failures inside XLA are not simulated. Text output (str) may print a note in place of a value it failed to convert."),
    P("P24", "Array operations on a batch move whole records",
      "Indexing, updating, reshaping, transposing, concatenating, stacking, splitting, repeating, padding, rolling, flipping, selecting, iterating and the other batch operations act on batch positions only: every result holds, in every field at once, "
      "exactly the records NumPy would put at those positions, with unchanged dtypes, class and per-record shapes; padding uses the default record.",
      ["histories", "inputs", "configurations"],
      "all histories of batch operations over all value classes, batch shapes and arguments, with results fed into later operations",
      "tests apply each operation to one or two small batches and often look at one field",
      ["xtructure/core/xtructure_numpy", "xtructure/core/xtructure_decorators"],
      [("batch axes separated from field axes", "xtructure/core/xtructure_numpy/dataclass_ops"), ("shape and structured type", "xtructure/core/xtructure_decorators/shape.py")],
      ["every leaf, shape, dtype and class of every result"],
      technique="deterministic simulation of operation histories with restarts, interrupts, vmap and a simulated device, against NumPy on record ids", note=DEVNOTE),
    P("P25", "Bit-packed representations lose nothing",
      "Whatever the field widths (1 to 32 bits), dtypes, shapes, nesting and batch shape, values that fit their declared widths come back unchanged from every packed form: packing and unpacking, reading a field or a slice of it, "
      "updating rows, gathering, reshaping, and the accelerator packing kernel, which produces the same words as the portable code.",
      ["inputs", "configurations", "histories", "schedules"],
      "all field layouts and widths, all fitting values, all batch shapes, all histories of updates and accesses, all kernel schedules",
      "tests pack a few hand-picked layouts",
      ["xtructure/core/xtructure_decorators/aggregate_bitpack", "xtructure/core/xtructure_decorators/bitpack_accessors.py"],
      [("word-crossing fields and tail bytes", "xtructure/core/xtructure_decorators/aggregate_bitpack"), ("packed field accessors", "xtructure/core/xtructure_decorators/bitpack_accessors.py")],
      ["values, dtypes and shapes read back through every accessor"],
      technique="deterministic simulation of packed-state histories over generated layouts, incl. the packing kernel on a simulated accelerator", note=DEVNOTE),
    P("P26", "Comparing two instances finds every difference, and only differences",
      "For two instances of one class, == is true exactly when every element of every field is equal and != exactly when it is not, by NumPy's rules for elements (NaN differs from itself, 0.0 equals -0.0); "
      "equal, not_equal, isclose and allclose say of every field what NumPy says. A single bit in any position of any field is enough. This holds for all value classes, nested and packed ones included, "
      "for every batch shape including empty ones, and in every execution mode; instances of other types are never equal.",
      ["histories", "inputs", "configurations", "fault_sequences"],
      "all pairs of replicas that saw the same updates, some lost, repeated or corrupted by a bit flip, over all classes, batch shapes and execution modes",
      "the tests compare a few instances that differ in many places at once",
      ["xtructure/core/xtructure_decorators/ops.py", "xtructure/core/xtructure_numpy/dataclass_ops/comparison_ops.py"],
      [("field-wise comparison and reduction", "xtructure/core/xtructure_decorators/ops.py, xtructure/core/xtructure_numpy/dataclass_ops/comparison_ops.py")],
      ["result of every comparison"],
      technique="deterministic simulation of diverging replicas (lost and repeated updates, bit flips, restarts) compared by the library and by NumPy", note=DEVNOTE),
    P("P27", "Instances are created exactly as declared, and reproducibly",
      "default, random, zeros_like, ones_like, full_like and replace give every field its declared dtype and the requested batch shape followed by its record shape. Every record of default is the declared default "
      "record. random depends on class, shape and key alone: the same bits step by step, compiled, without compilation, under vmap, in another process and after interrupted calls; every bit of an integer takes both "
      "values, floats lie in [0, 1), and different fields, rows and keys give different values. A class declared with validate=True refuses fields of another dtype, record shape or class and accepts the others.",
      ["histories", "inputs", "configurations", "fault_sequences"],
      "all sequences of creations over declared classes, batch shapes, keys, execution modes and processes, with interrupted and refused calls between them",
      "the tests create a few instances once, in one process, and look at shapes",
      ["xtructure/core/xtructure_decorators/default.py", "xtructure/core/xtructure_decorators/structure_util.py", "xtructure/core/xtructure_decorators/validation.py", "xtructure/core/field_descriptors.py"],
      [("declared defaults", "xtructure/core/xtructure_decorators/default.py"), ("key splitting and bit generation", "xtructure/core/xtructure_decorators/structure_util.py"),
       ("validation", "xtructure/core/xtructure_decorators/validation.py")],
      ["every field of every created instance, errors raised"],
      technique="deterministic simulation of creation histories with the random key as the seam, across execution modes, processes, interrupts and refused calls, against an independent declaration table",
      note="Seeded search. Trusts JAX's random number generator; statistical quality is only checked for stuck bits, range and repeated streams."),
    P("P90", "Instances print faithfully", "String output shows the stored values.",
      ["inputs"], "all instances", "tests sample a few instances", ["xtructure/core/xtructure_decorators/string_format.py"],
      [("formatting", "xtructure/core/xtructure_decorators")], ["text"], claimed=False,
      reason="Pure functions of one in-memory value: no schedule, clock, I/O, fault or history can change their result, so simulation would degenerate into plain input fuzzing."),
    P("P91", "A save that returned survives a power loss immediately afterwards", "Once save has returned, the new file survives an immediate power loss.",
      ["crash_points"], "all power losses after a completed save", "tests do not lose power", ["xtructure/io/io.py"],
      [("directory sync", "xtructure/io/io.py")], ["file after restart"], claimed=False,
      reason="The library does not promise it: it syncs the file but not the directory entry, so a correct tree may show the old value. Atomicity under power loss (old or new, nothing else) is claimed in P18."),
]


def main():
    from simlib.worlds import REGISTRY

    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            if p["claimed"] and p["id"] not in REGISTRY:
                continue
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [
            {"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} --tier quick",
             "thorough_cmd": f"bash run.sh {p['id']} --tier thorough", "technique": p["technique"],
             "level": p["level"], "level_note": p["note"]}
            for p in PROPS if p["claimed"] and p["id"] in REGISTRY
        ],
        "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in PROPS if not p["claimed"]],
        "notes": "No hooks in /repo: every seam used already exists (environment variables, JAX programs, Python's trace hooks, libc).",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
