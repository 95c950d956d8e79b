"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

A = "awkward0/array/"
P = []


def prop(id, title, statement, over, text, why, files, mech, note=None, tech=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, tech=tech, na=na, state=state))


prop("C01", "Lazy arrays read like the arrays they stand for, whatever is evicted",
     "Every read or derivation that works on an array gives the same value when any part of it is lazily loaded: elements, slices, masks, columns, arithmetic (also mixed with ordinary arrays, on either side), reductions, types and column names. "
     "This holds whatever cache is attached and whichever entries that cache drops, at whatever moment, including in the middle of one operation, and whatever memory the interpreter reuses meanwhile.",
     ["schedules", "configurations", "inputs"],
     "all nestings of lazy parts, all caches (none, dict, bounded, dropping everything), all eviction points, all object-identity reuse the interpreter may make",
     "The tests read a handful of one-level lazy arrays with no cache or a dict; evictions in the middle of an operation, several lazy levels and freed-and-reused identities are never scheduled.",
     [A + "virtual.py", A + "base.py", A + "jagged.py", A + "table.py", A + "chunked.py", A + "masked.py", A + "indexed.py", A + "union.py", "awkward0/type.py"],
     [("cache lookup and reload", A + "virtual.py:VirtualArray.array/materialize"), ("operands are materialized before broadcasting", A + "base.py:_util_materialize"), ("type memo keyed by identity", "awkward0/type.py:_fromarray")],
     note="seeded search; eager twin plus independent Python model as oracle",
     tech="deterministic simulation: scheduled cache evictions and identity reuse, differential oracle")

prop("C02", "A failed load is a clean failure and can be retried",
     "If loading lazy data fails, or the cache's lookup or insertion fails, at any point of an operation, that operation raises; nothing wrong, partial or stale is ever returned or left in the cache. "
     "Once the failure is gone the same operation, and every other read of every array involved, gives exactly what it would have given without the failure.",
     ["fault_sequences", "schedules", "configurations"],
     "any exception (including cancellation) at any loader call or cache access of any operation, any sequence of such failures, any cache",
     "No test makes a loader or a cache fail; the state left behind by a failure is never read again.",
     [A + "virtual.py", A + "chunked.py", A + "table.py", A + "jagged.py"],
     [("load, then apply edits, then check the type, then publish", A + "virtual.py:VirtualArray.materialize"), ("cache miss handling", A + "virtual.py:VirtualArray.array"), ("chunk size and type discovery", A + "chunked.py:knowchunksizes/knowtype")],
     note="faults at every external call site the run reaches (sampled)",
     tech="deterministic simulation with injected loader and cache failures")

prop("C03", "Column edits of a lazy array survive reloading",
     "Columns added, replaced or removed on a lazy array stay added, replaced or removed for every later read, however often the underlying data are dropped and loaded again and in whatever order the edits were made. "
     "An edit that fails changes nothing; copies made before an edit do not see it, copies made after do.",
     ["histories", "schedules", "fault_sequences"],
     "all sequences of set/replace/delete/reload/copy on lazy tables with any eviction schedule and failures inside an edit",
     "Tests set one column and read it back once; delete-after-set, set-after-delete, failing edits and reloads between edits are not reached.",
     [A + "virtual.py"],
     [("recorded edits replayed on load", A + "virtual.py:VirtualArray.__setitem__/__delitem__/materialize")],
     note="model: ordered dict of columns", tech="deterministic simulation: edit histories with evictions and faults against a column-dict model")

prop("C04", "Lazy arrays sharing one cache never see each other's data",
     "Any number of lazy arrays may share one cache: each always reads its own data, whatever is created, copied, dropped or collected in between and however the interpreter reuses object identities. "
     "Entries of arrays without a persistent key disappear with the array and touch no other entry; entries under a persistent key stay and serve every array declared with that key.",
     ["histories", "schedules"],
     "all create/copy/read/drop/collect histories of arrays over one shared cache, under every identity reuse",
     "Identity reuse depends on the allocator; a test cannot force it and none tries.",
     [A + "virtual.py"],
     [("transient keys from object identity", A + "virtual.py:VirtualArray.key"), ("entry removal at finalization", A + "virtual.py:VirtualArray.__del__"), ("copies", A + "virtual.py:VirtualArray.copy")],
     note="identity is behind a seam; reuse is immediate, delayed or never", tech="deterministic simulation: object lifetimes and identity reuse under a scheduler")

prop("C05", "Lazy data are loaded only when needed and once while held",
     "Building lazy structures, asking a lazy array of declared type for its type, length, shape or dtype, and selecting columns or rows that do not involve a lazy part load nothing of that part. "
     "While an array's data are held (no cache, or a cache that has not dropped them) they are not loaded again, and asking whether they are loaded never loads them. "
     "(A lazy part that declares no type may be loaded whenever a type or length is needed, and what a lazy part holds may be looked at to check its declaration.)",
     ["schedules", "configurations", "histories"],
     "all histories of reads over lazy columns and chunks with declared types, all caches and evictions",
     "Tests count loads in two or three fixed situations.",
     [A + "virtual.py", A + "chunked.py", A + "table.py"],
     [("state machine of the cached reference", A + "virtual.py:VirtualArray.array"), ("declared type answers", A + "virtual.py:VirtualArray.type"), ("column and chunk selection", A + "table.py:Table.__getitem__, " + A + "chunked.py:ChunkedArray.__getitem__")],
     note="loader call log against a reference holding model", tech="deterministic simulation: call log of simulated loaders and cache against a model")

prop("C06", "A lazy array's declared type and length are enforced on every load",
     "When a lazy array declares its type, no load (first, repeated after eviction, or after a failure) can hand out data of another type or length: the access raises instead and nothing is retained. "
     "Data that do match the declaration are always accepted.",
     ["fault_sequences", "histories", "inputs"],
     "all sequences of loads in which the source misbehaves at any point, all declared types, all caches and identity reuse",
     "Tests check one mismatch at the first load.",
     [A + "virtual.py", "awkward0/type.py"],
     [("type check before publication", A + "virtual.py:VirtualArray.materialize"), ("type comparison", "awkward0/type.py:Type._eq")],
     note="misbehaving sources are a fault kind", tech="deterministic simulation: sources that change type or length between loads")

prop("C07", "A chunked array reads as the concatenation of its chunks at every moment",
     "Whatever part of the chunk sizes has been discovered, in whatever order reads, slices, assignments and derivations happened before, a chunked array reads as the concatenation of its chunks, and index conversions between chunk and whole agree with it. "
     "If a chunk fails to load, the read raises (it is never shortened or emptied) and later reads are correct.",
     ["histories", "fault_sequences", "schedules"],
     "all chunk layouts (also empty chunks), all interleavings of discovery with reads and derivations, failing chunks at any point",
     "Tests use fixed chunk lists read from fresh objects; discovery state left by earlier reads or failures is not varied.",
     [A + "chunked.py"],
     [("discovered sizes and cached offsets", A + "chunked.py:knowchunksizes/offsets/copy"), ("index normalization", A + "chunked.py:global2chunkid"), ("slicing across chunks", A + "chunked.py:__getitem__")],
     note="model: Python list", tech="deterministic simulation: discovery histories with failing lazy chunks against a list model")

prop("C08", "Appending to a growable array refines a list, also when appends fail",
     "After any sequence of appends and extends, interleaved with reads, a growable array equals the list of everything appended, and its elements never change afterwards. "
     "An append or extend that fails (bad value, wrong shape, memory exhaustion, a source that raises midway) leaves the array equal to what was appended before, or for an extend to that plus a prefix, and later operations work.",
     ["histories", "fault_sequences"],
     "all append/extend/read histories, chunk shapes and dtypes, failures at any allocation or element",
     "Tests append good values a few times; allocation failures and failing sources are not injected.",
     [A + "chunked.py"],
     [("growing the last chunk", A + "chunked.py:AppendableArray.append/extend"), ("bookkeeping lists", A + "chunked.py:AppendableArray._chunksizes/_types")],
     note="allocations go through a seam", tech="deterministic simulation: append histories with failing allocations against a list model")

prop("C09", "Views, copies and results taken from a growing array stay as they were",
     "A slice, mask, column, arithmetic result or copy taken from a growable array shows exactly the elements that existed when it was taken, whatever is appended to the original or to a copy afterwards. "
     "Appending to a copy never changes the original or another copy. An iteration that is running while the array grows sees its elements in order, each once, none skipped.",
     ["histories"],
     "all interleavings of appends to an array and its copies with taking and reading snapshots",
     "Tests never read a snapshot after appending more.",
     [A + "chunked.py"],
     [("partly filled last chunk", A + "chunked.py:AppendableArray"), ("copy", A + "chunked.py:AppendableArray.copy")],
     note="", tech="deterministic simulation: interleaved writer and readers against frozen list snapshots")

prop("C10", "Jagged data filled in the documented order always read as a consistent prefix",
     "When content is appended first, then stops, then starts (as the documentation prescribes), a reader at any moment between these steps, and after a failed step, sees exactly the lists completed so far, and nothing breaks when the writer continues. "
     "This includes jagged arrays over growable or chunked parts, nested ones, and readers created at any moment.",
     ["schedules", "fault_sequences"],
     "all interleavings of the writer's steps with readers, failures at every step",
     "Tests fill jagged arrays in one go.",
     [A + "jagged.py", A + "chunked.py"],
     [("starts bound the length, stops may be longer", A + "jagged.py:JaggedArray._valid/__len__/__iter__"), ("append order", A + "chunked.py:AppendableArray.append")],
     note="", tech="deterministic simulation: scheduler interleaves writer steps and readers")

prop("C11", "A save that returned reads back equal after a restart",
     "Once saving (to an archive file, a mapping, an HDF5 group or a pickle) returned without an error, reading it back in a fresh process gives the same array: same values, same structure where parts are shared, lazy parts still lazy and loading the right data. "
     "This holds for any combination of arrays saved together, any options, and under short reads and writes of the underlying file.",
     ["inputs", "configurations", "histories", "fault_sequences"],
     "all array structures and sharings, storages, compressions, modes and sequences of saves, with partial (short) I/O",
     "Tests round-trip single arrays through in-memory dicts and one file.",
     ["awkward0/persist.py", A + "base.py", A + "virtual.py"],
     [("object identity of shared parts", "awkward0/persist.py:serialize"), ("reconstruction", "awkward0/persist.py:deserialize"), ("archive layout", "awkward0/persist.py:save/load"), ("HDF5 layout", "awkward0/persist.py:hdf5")],
     note="restart = only the stored bytes survive", tech="deterministic simulation: simulated storage, restarts, short I/O; round-trip against model")

prop("C12", "An interrupted write never passes for a complete one",
     "If saving fails or the process dies at any point of a write (I/O error, full disk, crash, torn write), a later reader either gets the complete new array, the complete array that was there before, or an error / an absent name; never a wrong or partial array. "
     "Other arrays in the same mapping or HDF5 file stay readable and unchanged, and a failed write can be retried.",
     ["crash_points", "fault_sequences"],
     "every write call of every save, every kind of failure there, every storage",
     "No test interrupts a save.",
     ["awkward0/persist.py"],
     [("data first, description last", "awkward0/persist.py:serialize"), ("archive closing", "awkward0/persist.py:save"), ("HDF5 assignment", "awkward0/persist.py:hdf5.__setitem__")],
     note="process-crash model: completed writes survive, later ones are lost", tech="deterministic simulation with crash points and write faults")

prop("C13", "Saving never damages what is already stored",
     "Appending to an archive, or adding to a mapping or HDF5 file under a name of its own, leaves every array stored before (and whatever else is there) readable and unchanged, also for readers that have the archive open. "
     "In archives and HDF5 groups a name that exists, or that a stored name begins with, is refused before anything is written; a refused or failed save leaves the archive or group as it was. Overwriting modes replace exactly what they say.",
     ["histories", "configurations", "fault_sequences"],
     "all histories of saves in all modes with colliding and overlapping names and prefixes",
     "Tests append once to a fresh file.",
     ["awkward0/persist.py"],
     [("mode handling and conflict detection", "awkward0/persist.py:save"), ("prefixes", "awkward0/persist.py:serialize")],
     note="", tech="deterministic simulation: save histories against a dict model")

prop("C14", "Reading from failing or damaged storage gives the right array or an error",
     "When reads of stored data fail, come back short or damaged, or parts are missing, reading an array raises or returns exactly what was stored; damage to the stored bytes of one array does not change another. "
     "A reader that met a transient failure gives the right data once the storage works again.",
     ["fault_sequences"],
     "failures at every read of every load, missing parts, flipped bytes in checksummed archives",
     "No test makes storage fail while reading.",
     ["awkward0/persist.py"],
     [("archive reader", "awkward0/persist.py:load/Load"), ("reconstruction", "awkward0/persist.py:deserialize"), ("HDF5 reader", "awkward0/persist.py:hdf5.__getitem__")],
     note="", tech="deterministic simulation with read faults and stored-byte damage")

prop("C15", "An HDF5 group of arrays behaves as a dict of arrays",
     "Setting, deleting, listing, testing and reading named arrays in an HDF5 group, in any order and across closing and reopening, behaves as a dict of arrays, except that setting a name that exists may be refused, which changes nothing. "
     "Foreign groups, datasets and attributes next to them are neither listed nor harmed. "
     "Operations that fail in between leave the other names intact and the failed name either as before or absent.",
     ["histories", "fault_sequences"],
     "all operation histories with restarts and failures at any HDF5 call",
     "Tests write two arrays to one file.",
     ["awkward0/persist.py"],
     [("group layout and schema dataset", "awkward0/persist.py:hdf5")],
     note="", tech="deterministic simulation: h5py behind a fault-injecting proxy, dict model")

prop("C16", "Reading stored arrays never calls what the whitelist forbids",
     "However the stored description of an array has been altered, reading it calls only functions that the whitelist in force allows and otherwise raises; the functions of the default whitelist are harmless constructors. "
     "Every array saved with the default settings can be read with the default whitelist, plus whatever functions and classes of the user it was built from.",
     ["inputs", "fault_sequences"],
     "all alterations of stored descriptions, all whitelists, every way of reading (mapping, archive, HDF5)",
     "Tests try one forbidden function name.",
     ["awkward0/persist.py"],
     [("whitelist check", "awkward0/persist.py:deserialize"), ("default whitelist", "awkward0/persist.py:whitelist")],
     note="calls are recorded by stand-ins", tech="deterministic simulation: a byzantine store alters descriptions between write and read")

prop("C17", "Parquet files read back what was written, lazily, whatever fails meanwhile",
     "Arrays (sliced and selected ones, too) or streams of arrays written to a Parquet file read back equal, column by column, in any order and however loaded columns are dropped; a column is read only when used. "
     "If a source of the stream or a read fails, the call raises, nothing wrong is returned, resources are released, the whole parts written before a failing source can be read, and later reads are right.",
     ["histories", "fault_sequences", "schedules"],
     "all row-group splits, read orders, evictions, failures of the source iterator and of row-group reads",
     "Tests write a few fixed arrays and read them once.",
     ["awkward0/arrow.py"],
     [("writer loop", "awkward0/arrow.py:toparquet"), ("lazy row groups", "awkward0/arrow.py:_ParquetFile/fromparquet")],
     note="pyarrow runs single-threaded", tech="deterministic simulation: failing iterators and row-group reads, evictions")

prop("C18", "Tables and their views stay consistent under interleaved edits and failures",
     "Any interleaving of column edits, row selections, column selections and reads on a table, its views and its copies behaves as lists of records; views and derivations never change the table they came from nor the arrays the caller passed. "
     "An edit that fails leaves the table as it was, and using some columns or rows never loads lazy columns that are not involved.",
     ["histories", "fault_sequences"],
     "all histories of edits and selections over several handles to the same table, with failing lazy columns",
     "Tests exercise single operations on fresh tables.",
     [A + "table.py", A + "base.py"],
     [("row view", A + "table.py:Table._view/_index/_newslice"), ("column assignment", A + "table.py:Table.__setitem__")],
     note="", tech="deterministic simulation: several handles, interleaved edits, failing columns, record-list model")

prop("C19", "Concurrent readers see what a single reader sees",
     "Threads that only read the same arrays (lazy arrays with or without a shared cache, chunked arrays whose sizes are not yet known, jagged and masked arrays, stored arrays) each get exactly the result a single thread would get, under every interleaving. "
     "Afterwards the arrays still read correctly.",
     ["schedules"],
     "all preemption points between Python instructions of up to four reader threads, all caches and evictions",
     "No test uses threads, and one that did could not choose the interleaving.",
     [A + "virtual.py", A + "chunked.py", A + "jagged.py", A + "union.py"],
     [("discovery of chunk sizes", A + "chunked.py:knowchunksizes"), ("cached derived state", A + "jagged.py:offsets/counts/parents"), ("load and publish", A + "virtual.py:materialize")],
     note="real threads, one runs at a time, every switch is decided by the seed", tech="deterministic simulation: controlled thread scheduler with seeded preemption")

prop("C20", "Building arrays from an iterator equals building them from a list, or raises",
     "Building an array from an iterator yields the same array as building it from the list of the same elements, whatever the iterator does in between (nested generators, re-entrant builds, fluctuating structure). "
     "If the iterator fails midway, the build raises that failure, no truncated array is returned, and later builds are unaffected.",
     ["fault_sequences", "schedules"],
     "all element sequences, iterators failing (or being cancelled) at any element and any nesting depth, re-entrant builds",
     "Tests pass well-behaved lists.",
     ["awkward0/generate.py", A + "jagged.py", A + "objects.py", A + "table.py"],
     [("builder state", "awkward0/generate.py:fromiter"), ("constructors from iterables", A + "jagged.py:JaggedArray.fromiter")],
     note="", tech="deterministic simulation: iterators as failing, re-entrant parties")

prop("C21", "Answers never show leftover memory, and running out of memory harms nothing",
     "What the library returns, prints or stores is determined by the data and the operations alone: what memory held before never shows in a value, a refusal or a stored byte. "
     "An operation that cannot get memory raises MemoryError, all arrays then read as before (edits included), and doing it again gives the right result.",
     ["histories", "fault_sequences"],
     "all histories of operations, edits and conversions over all array classes, all contents of fresh memory, a failure at any request for a new array",
     "Tests run in a fresh process whose memory is mostly zero, and never run out of it.",
     [A + "base.py", A + "jagged.py", A + "masked.py", A + "indexed.py", "awkward0/generate.py"],
     [("bit masks", A + "masked.py:bool2bit/_maskwhere"), ("padding", A + "base.py:_util_pad"), ("broadcast assignment", A + "jagged.py:tojagged"), ("missing values of built arrays", "awkward0/generate.py:MaskedFillable.finalize")],
     note="the allocator of numpy is replaced (NEP 49) to decide what fresh memory holds; failures are injected where the library asks numpy for a new array", tech="deterministic simulation: simulated allocator (leftover contents, failures), differential between memories")

prop("C22", "Reading and deriving leave no trace, even when cancelled",
     "Reading, selecting from, computing with or converting arrays never changes them, the buffers, lists and dicts the caller built them from or passed in, or what is stored. "
     "What was read, derived, refused or cancelled before (Ctrl-C at any point, no memory, a loader that fails) never changes the answer to a later operation, and everything works the same on memory that cannot be written to.",
     ["histories", "crash_points"],
     "all histories of reads and derivations over all array classes and their constructors, on shared or read-only buffers, a cancellation between any two lines or instructions of the library",
     "A test compares one answer on a fresh array; it looks neither at the buffers it passed in nor at the arrays it used before, and nothing is ever interrupted.",
     [A + "base.py", A + "jagged.py", A + "masked.py", A + "indexed.py", A + "chunked.py", A + "table.py", A + "virtual.py"],
     [("reductions over padded copies", A + "jagged.py:_reduce"), ("missing values", A + "base.py:_util_fillna"), ("negative indexes", A + "indexed.py:SparseArray.__getitem__"), ("kept results", A + "indexed.py:_getinverse"), ("chunk sizes", A + "chunked.py:knowchunksizes")],
     note="the simulator decides at which line or instruction of awkward0 the user cancels (sys.monitoring), which allocation and which load fails, and how the caller's buffers overlap", tech="deterministic simulation: cancellation and failures at chosen points of a history of reads, against the same operation on arrays without a history")

NA = "a pure function of its input in one call: no schedule, fault, time, I/O or second party for a simulator to control (C01 exercises it only to compare lazy with eager)"
prop("N01", "Jagged, masked and indexed selections agree with nested Python lists",
     "Selecting by integer, slice, mask, index array or jagged index gives the nested lists that the same selection on Python lists gives.",
     ["inputs"], "all arrays and selections", "Only sampled by tests.", [A + "jagged.py", A + "masked.py", A + "indexed.py"], [("selection", A + "jagged.py:__getitem__")], na=NA)
prop("N02", "Element-wise arithmetic on nested arrays agrees with scalar arithmetic",
     "Applying a universal function to nested arrays broadcasts scalars and flat arrays into the nesting and equals applying it to each element.",
     ["inputs"], "all arrays and functions", "Only sampled by tests.", [A + "jagged.py", A + "table.py"], [("broadcast", A + "jagged.py:__array_ufunc__")], na=NA)
prop("N03", "Reducers and combinatorics agree with loops over nested lists",
     "Reductions, arg-reductions, pairs, crosses, choices and padding equal the loops over Python lists that define them.",
     ["inputs"], "all arrays", "Only sampled by tests.", [A + "jagged.py", A + "base.py"], [("reducers", A + "jagged.py:_reduce"), ("combinatorics", A + "jagged.py:pairs/cross/choose")], na=NA)
prop("N04", "High-level types describe exactly the data",
     "The reported type, length, shape and dtype of an array describe its data, and equal types compare equal.",
     ["inputs"], "all arrays", "Only sampled by tests.", ["awkward0/type.py"], [("type of array", "awkward0/type.py:fromarray")], na=NA)
prop("N05", "Conversions to and from Arrow and pandas preserve values",
     "Converting an in-memory array to an Arrow or pandas object and back preserves its values, including missing ones.",
     ["inputs"], "all arrays", "Only sampled by tests.", ["awkward0/arrow.py", "awkward0/pandas.py"], [("conversion", "awkward0/arrow.py:toarrow/fromarrow")], na=NA)
prop("N06", "Concatenation equals list concatenation",
     "Concatenating arrays along either axis equals concatenating the lists they represent.",
     ["inputs"], "all arrays", "Only sampled by tests.", [A + "base.py"], [("concatenate", A + "base.py:concatenate")], na=NA)
prop("N07", "User-defined methods follow objects through every derivation",
     "Mixed-in methods of object arrays are available on every slice, result and element derived from them.",
     ["inputs", "programs"], "all arrays and mixins", "Only sampled by tests.", [A + "objects.py"], [("mixins", A + "objects.py:Methods")], na=NA)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                 "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for p in P:
        have = os.path.exists(os.path.join(HERE, "dst", p["id"].lower() + ".py"))
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif have:
            checks.append({"property": p["id"], "quick_cmd": "bash run.sh check %s --tier quick" % p["id"], "thorough_cmd": "bash run.sh check %s --tier thorough" % p["id"],
                           "technique": p["tech"], "level": "exploration", "level_note": ("seeded search over simulated runs, not exhaustive" + ("; " + p["note"] if p["note"] else ""))})
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "bash run.sh setup", "checks": checks, "not_applicable": na}, f, indent=1)
        f.write("\n")


main()
