"""the properties, and what decides them. `python tools/generate.py` writes
properties.jsonl and MANIFEST.json from this."""

IMPL = "dustgoggles/codex/implements.py"
CODECS = "dustgoggles/codex/codecs.py"
MEM = "dustgoggles/codex/memutilz.py"
COMP = "dustgoggles/composition.py"
TRACK = "dustgoggles/tracker.py"
DYN = "dustgoggles/dynamic.py"
STRUCT = "dustgoggles/structures.py"
FUNC = "dustgoggles/func.py"
PIVOT = "dustgoggles/pivot.py"
MOSAIC = "dustgoggles/mosaic.py"
SCRAPE = "dustgoggles/scrape.py"

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique,
         note, claimed=True, reason=None, **anchors):
    P.append({
        "id": id, "title": title, "statement": statement, "over": over,
        "text": text, "why": why, "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        "technique": technique, "note": note, "claimed": claimed,
        "reason": reason, "anchors": anchors,
    })


prop(
    "C01", "At most one process holds a shared lock",
    "At every moment at most one of the processes (or threads) contending for "
    "the same-named shared lock is between acquiring and releasing it, whatever "
    "the interleaving of their arrivals, waits, releases and abandoned waits. "
    "Locks of different names never exclude each other.",
    ["schedules", "histories"],
    "any number of processes, any names, any interleaving of the shared memory "
    "operations inside acquire and release, repeated use of one lock object",
    "a test samples a handful of schedules; the races are between single shared "
    "memory operations of different processes",
    [IMPL], [("slot numbering and floor", f"{IMPL}: SlidingLock._renumber"),
             ("precedence check and exclusive creation",
              f"{IMPL}: SlidingLock._check_acquirement")],
    "TLA+ lock model (TLC, all interleavings) + controlled-schedule traces of "
    "real processes validated by TLC",
    "SlidingLock.tla checked exhaustively for 2-3 processes; real lock objects "
    "run under enumerated, random and model-derived schedules at shared-memory "
    "operation granularity; every recorded enter/exit trace validated by TLC",
)
prop(
    "C02", "A free lock can be taken; waiting can be abandoned cleanly",
    "Whenever no one holds a shared lock and no one else is trying for it, "
    "acquiring it succeeds, and under contention everyone who keeps trying "
    "gets it eventually. A waiter that gives up (a timeout or an interrupt) or "
    "a holder whose block raises leaves no block and nothing that blocks others, and "
    "the exception reaches the caller unchanged.",
    ["schedules", "fault_sequences", "histories"],
    "any interleaving, with timeouts, interrupts and exceptions at any wait or "
    "inside any critical section",
    "deadlock and leaked slots appear only for particular interleavings and "
    "faults; the tests contain neither",
    [IMPL], [("release of slot, marker and floor", f"{IMPL}: SlidingLock.release"),
             ("withdrawal on failure", f"{IMPL}: SlidingLock.__enter__"),
             ("bounded wait", f"{IMPL}: SlidingLock.wait")],
    "TLA+ lock model with withdrawal (TLC safety + liveness under fairness) + "
    "fault-injected schedules of real processes validated by TLC",
    "progress is decided on the model under weak fairness and on real processes "
    "as completion within a step budget under fair schedules",
)
prop(
    "C03", "A shared index stays consistent under concurrent writers",
    "When several processes add, re-add and remove keys of one shared index at "
    "the same time, every call behaves as if the calls had happened one after "
    "another in some order consistent with their real-time order. Afterwards "
    "the index lists each remaining key exactly once, finds each of them with "
    "its own attached value, and finds nothing else.",
    ["schedules", "histories"],
    "any interleaving of calls by any number of processes on tag and metatag "
    "indexes with locking on",
    "lost updates and duplicate slots need two writers inside the same few "
    "instructions",
    [IMPL], [("locked add/remove", f"{IMPL}: TagIndex.add / __delitem__"),
             ("locked add/remove with values", f"{IMPL}: MetaTagIndex.add / __delitem__")],
    "linearizability of recorded concurrent histories against a TLA+ index "
    "spec, searched by TLC",
    "schedules are controlled at shared-memory operation granularity with real "
    "processes; histories up to 3 processes x 4 calls per run",
)
prop(
    "C04", "Concurrent notepad writes are not lost or mixed",
    "When several processes write and delete entries of one shared notepad at "
    "the same time, each on its own keys or overwriting a common key, no write "
    "is lost, every key ends up with a value that one of its last writers "
    "wrote, whole and unmixed, and the key listing is exact afterwards. "
    "Once a key exists, no overlapping no-overwrite assignment of it succeeds, "
    "of several such assignments of a new key exactly one does, and nobody's "
    "call fails because of others' calls on other keys.",
    ["schedules", "histories"],
    "any interleaving of writers in several processes, of values of different "
    "sizes, with locking on",
    "the tests' only contention check does not control or observe the schedule",
    [IMPL, CODECS, MEM],
    [("index add under lock, then value block", f"{IMPL}: Notepad.__setitem__"),
     ("block replacement", f"{MEM}: open_block")],
    "recorded concurrent histories validated by TLC against a TLA+ notepad spec",
    "controlled schedules, real processes; reads concurrent with writes of the "
    "same key are outside the guarantee (the code does not lock reads)",
)
prop(
    "C05", "A shared notepad is one dict for every process",
    "For calls made one at a time, any number of notepad objects in any "
    "processes attached to the same prefix behave as one dictionary: reads "
    "return exactly the value last stored, missing keys raise KeyError or give "
    "the default, listings hold exactly the stored keys, and no-overwrite "
    "assignments of existing keys raise KeyError. Notepads of other prefixes "
    "are unaffected, and creating an existing or attaching to a missing one "
    "fails.",
    ["histories", "inputs", "configurations"],
    "every sequence of set/get/delete/list/clear/close/open calls, over any "
    "keys with distinct nonempty string forms, any serializable values, any "
    "codec, any index type, locking on or off",
    "the tests run a few straight-line scripts with a couple of keys and values",
    [IMPL, CODECS, MEM],
    [("key addresses", f"{IMPL}: AbstractNotepad.address"),
     ("index", f"{IMPL}: TagIndex._add / _delitem / _enumerate_keys"),
     ("value blocks", f"{CODECS}: generic_mnemonic_factory")],
    "TLA+ notepad spec: all model transitions replayed on real processes and "
    "recorded histories validated by TLC",
    "MCNotepad exhaustively; recorded histories with rich keys and values",
)
prop(
    "C06", "A shared array is returned exactly as stored",
    "Whatever numeric, boolean, string or datetime array is stored under a key "
    "of a shared array pad, every process attached to it reads back an array "
    "with the same dtype, shape and element bytes until the key is overwritten "
    "or deleted, also after overwriting with an array of another size, shape "
    "or dtype. Arrays read by copy never change afterwards, arrays read "
    "without copying are the entry itself and outlive it and the pad; arrays "
    "that can't be shared (Python objects) are refused without any effect.",
    ["inputs", "histories"],
    "any shape (0-d, empty, n-d), memory layout, byte order and dtype of fixed "
    "size, any sequence of store, overwrite, delete, read, list, clear and "
    "close over several processes",
    "the tests store one array and read it back",
    [IMPL, CODECS],
    [("metadata in the index", f"{IMPL}: GridPaper.__setitem__ / __getitem__"),
     ("array blocks", f"{CODECS}: numpy_mnemonic_factory")],
    "TLA+ notepad spec over abstract array values, traces of real processes "
    "validated by TLC",
    "array contents are abstracted to a digest of dtype, shape and bytes",
)
prop(
    "C07", "A shared index is an exact key set (and value map)",
    "For calls made one at a time, a tag index holds exactly the keys added and "
    "not removed, reports for each key one stable position and for no other "
    "key, keeps positions gapless after removals, and a metatag index "
    "associates with each key exactly the last metadata attached to it. "
    "Adding an existing key changes nothing or raises as asked, removing a "
    "missing one raises KeyError, and all attached objects see this alike.",
    ["histories", "inputs"],
    "every sequence of add/remove/check/list/lookup calls over any keys and "
    "JSON values by several attached objects",
    "index compaction after removal depends on the removed position and on the "
    "history; tests remove nothing from an index directly",
    [IMPL], [("append and compaction", f"{IMPL}: TagIndex._add / _delitem"),
             ("value compaction", f"{IMPL}: MetaTagIndex.__delitem__")],
    "TLA+ refinement: slot-array index spec refines an abstract map (TLC); its "
    "transitions replayed on the code; recorded histories validated by TLC",
    "all histories up to the model bound, plus long random histories",
)
prop(
    "C08", "Closing leaves nothing behind; failed calls change nothing",
    "Closing a shared notepad, array pad or index removes every shared memory "
    "block it or any object attached to the same prefix ever made, and clearing "
    "one leaves a usable empty one. A call that raises (reserved keys, "
    "unserializable values, missing keys, refused overwrites, refused creation) "
    "leaves the stored entries, the listing and the blocks (apart from the lock's own counter) as they were.",
    ["histories", "fault_sequences", "inputs"],
    "any history, any failing call at any position of it, any close order, explicit or by cleanup on exit",
    "the tests never look at what is left in shared memory, and a leak depends "
    "on what happened before",
    [IMPL, CODECS, MEM],
    [("close/clear", f"{IMPL}: Notepad.close, GridPaper.close, TagIndex.close"),
     ("undo of failed assignment", f"{IMPL}: Notepad.__setitem__")],
    "TLA+ notepad spec with block residue, recorded histories of real processes "
    "(with /dev/shm observed) validated by TLC",
    "blocks are observed by listing the prefix in /dev/shm",
)
prop(
    "C09", "A sticky shows the latest note at its address",
    "A fresh or rereading sticky returns exactly the object most recently stuck "
    "at its address by any process, nothing if the address is empty, and "
    "rereading never returns anything older. Sticking any picklable object, of any size, replaces the previous note for every process, a failing attempt leaves it as it was, and pulling it removes it.",
    ["histories", "inputs"],
    "any sequence of note/stick/read/reread/pull by several processes over "
    "several addresses and values of different sizes",
    "the tests stick one value once",
    [IMPL, MEM], [("cached read", f"{IMPL}: Sticky.read"),
                  ("replacement", f"{IMPL}: Sticky.stick")],
    "TLA+ register spec with caches; model transitions replayed and recorded "
    "histories validated by TLC",
    "one-at-a-time calls over several real processes",
)
prop(
    "C10", "Raw shared blocks: create, overwrite, fetch, delete",
    "Opening a block creates it with at least the requested size if the address "
    "is free; at a taken address it returns the existing contents, or replaces "
    "them by a fresh block of at least the requested size if told to overwrite. "
    "Fetching returns exactly the block's bytes, existence is reported "
    "truthfully, and deleting removes exactly that block and complains about a "
    "missing one unless told not to.",
    ["histories", "inputs"],
    "any sequence of block operations over any addresses, sizes and contents by "
    "several processes",
    "no test calls these functions directly",
    [MEM, CODECS], [("open/overwrite", f"{MEM}: open_block"),
                    ("delete", f"{MEM}: delete_block")],
    "TLA+ block store spec; model transitions replayed and recorded histories "
    "validated by TLC",
    "one-at-a-time calls over several real processes",
)
prop(
    "C11", "Deactivating the tracker keeps shared blocks alive, and only them",
    "After a process deactivates shared memory tracking, blocks it creates or "
    "opens survive that process's exit until someone deletes them, also when it "
    "was deactivated repeatedly. Everything else the process registers for "
    "cleanup is still cleaned up, and no call fails or complains because of the deactivation.",
    ["histories", "crash_points"],
    "any order of deactivating, creating, attaching, deleting and exiting (also "
    "by a crash) in any number of unrelated processes",
    "needs separate interpreters that exit; no test has any",
    [MEM], [("patched register/unregister",
             f"{MEM}: deactivate_shared_memory_resource_tracker")],
    "TLA+ spec of interpreters and their trackers; model behaviours replayed on "
    "fresh interpreters, outcomes validated by TLC",
    "each process of a replayed behaviour is a separate interpreter",
)
prop(
    "P01", "A pipeline computes its steps in order with its inserts",
    "Executing a composition equals applying its steps in order, each to the "
    "previous output in the first free positional slot, with inserted "
    "positional and keyword arguments placed as declared and overriding ones "
    "baked into partial steps. Executing it changes neither its definition "
    "(beyond what its own sends put into inserts) nor later results, and "
    "iterating yields the same intermediate states.",
    ["inputs", "programs", "configurations"],
    "any steps (plain, partial, dynamic), names, inserts (positional gaps, "
    "keywords, None values) and signals, executed any number of times",
    "the tests run a few fixed pipelines",
    [COMP], [("argument flow", f"{COMP}: Composition.call_step / _flow_signal"),
             ("iteration", f"{COMP}: Composition.itercall / execute")],
    "TLA+ pipeline machine: exhaustive small pipelines replayed on the code, "
    "random pipelines' traces validated by TLC",
    "steps are symbolic: their results record the arguments they got",
)
prop(
    "P02", "Sends deliver each step's output, in order, exactly once",
    "Each execution delivers, after a step and before the next, that step's "
    "output exactly once to each of its sends in the order they were added, "
    "through the send's pipe if any, to a list, mapping, writable object or "
    "another step's insert. Captures hold the latest output of their step, "
    "sends to missing steps do nothing, and sends never alter the signal.",
    ["inputs", "programs", "histories"],
    "any set of sends, targets and pipes, executed any number of times",
    "ordering and reuse over several executions are not tested",
    [COMP], [("sends", f"{COMP}: Composition._perform_sends / place_into")],
    "TLA+ pipeline machine with send targets, traces validated by TLC",
    "send deliveries are events of the recorded trace",
)
prop(
    "P03", "Pipeline failures stop, report and propagate as configured",
    "When a step, pipe or send of a pipeline raises, no later step runs and no "
    "later send is delivered; the exception reaches the caller unchanged, or "
    "the result is None if the pipeline is optional (keyboard interrupts always "
    "reach the caller). If tracked, exactly one "
    "report naming the failed step and the exception is recorded after the "
    "records of the steps that completed, and the pipeline stays usable.",
    ["inputs", "fault_sequences", "histories"],
    "any pipeline with an exception (other than StopIteration) injected at any "
    "step, pipe or send in any execution of a sequence",
    "tests contain one failing pipeline",
    [COMP, TRACK], [("failure handling", f"{COMP}: Composition.execute")],
    "TLA+ pipeline machine with failures at every point, traces validated by TLC",
    "faults injected at every step and send of the modelled pipelines",
)
prop(
    "P04", "Editing a pipeline has exactly the declared effect",
    "Adding a named step appends it or replaces the step of that name in place; "
    "unnamed steps, reindexing, added sends, inserts, captures and tracking "
    "change only what they name, and the reported indexes always match what an "
    "execution does. With tracking on, every completed execution records "
    "exactly one entry per executed step, in order.",
    ["histories", "programs"],
    "any sequence of edits interleaved with executions",
    "edits in sequence with executions are not tested",
    [COMP], [("edits", f"{COMP}: Composition.add_step / add_send / add_insert / reindex"),
             ("tracking", f"{COMP}: Composition._add_track_sends")],
    "TLA+ pipeline machine with edit actions: histories validated by TLC",
    "histories of edits and executions",
)
prop(
    "T01", "A tracker keeps exactly what was tracked, in order",
    "A tracker's history is, in order, one record per tracked call since the "
    "last clear, numbered consecutively from one, with the tracked name, the "
    "caller, the metadata in force at that time and the call's own metadata "
    "taking precedence. Records never change afterwards, and trackers do not "
    "affect each other.",
    ["histories"],
    "any sequence of track, set_metadata, clear, pause and dump calls on any "
    "number of trackers",
    "the tests use a tracker once",
    [TRACK], [("records", f"{TRACK}: Tracker.track / set_metadata / clear")],
    "TLA+ tracker spec: transitions replayed, recorded histories validated by TLC",
    "one history per run of up to several hundred calls",
)
prop(
    "T02", "A tracker's log file is valid after every dump, pause and failure",
    "After any sequence of dumps by any trackers sharing an output file, the "
    "file is one valid JSON array with one element per successful dump in "
    "order, each holding that tracker's history at that time. Paused dumps and "
    "dumps of unserializable metadata leave the file as it was, and clearing "
    "removes it.",
    ["histories", "fault_sequences"],
    "any sequence of tracks, dumps, pauses, clears and failing dumps",
    "appending to the file depends on its state from earlier dumps",
    [TRACK], [("append to array", f"{TRACK}: Tracker.dump")],
    "TLA+ tracker spec with the file as state, recorded histories validated by TLC",
    "the file is parsed after every call",
)
prop(
    "D01", "A dynamic function's life cycle follows its declared states",
    "A dynamic function is callable exactly when loaded or loadable on call, "
    "always runs the source it was last (re)loaded from, refuses double loads "
    "unless asked to reload, and reports unreadiness otherwise. Its name and "
    "signature are those of the loaded function, unloading forgets code, "
    "errors and failure flags, and instances never affect each other.",
    ["histories", "configurations"],
    "any sequence of construct, load, reload, unload, source change and call, "
    "for any lazy/load-on-call setting, from source defining one plain function or from a function without defaults, closure or annotations; whether construction from uncompilable source raises is open",
    "tests exercise one or two orders of these calls",
    [DYN], [("life cycle", f"{DYN}: Dynamic.load / define / unload / __call__")],
    "TLA+ life-cycle spec: every transition replayed, recorded histories "
    "validated by TLC",
    "exhaustive over the abstract life-cycle graph",
)
prop(
    "D02", "Optional calls capture failures and required calls raise them",
    "An optional dynamic call that fails returns None, sets the call-failure "
    "flag and appends exactly one report with exception, category, function and "
    "traceback; a non-optional one raises the same exception and records "
    "nothing. A per-call choice overrides the default for that call only, "
    "successful calls record nothing, and keyboard interrupts and exits always propagate.",
    ["histories", "fault_sequences"],
    "any sequence of succeeding, failing and interrupted calls with any "
    "per-call or default setting; uncompilable sources (one compile report each)",
    "error capture is tested for single calls",
    [DYN, FUNC], [("capture", f"{DYN}: dontcare / Dynamic.__call__"),
                  ("optionalize", f"{FUNC}: optionalize")],
    "TLA+ life-cycle spec with outcomes, recorded histories validated by TLC",
    "exhaustive over the abstract graph plus random histories",
)
prop(
    "S01", "Digging finds exactly the matching items, in level-first order",
    "Searching a nested mapping for all keys, values or items returns exactly "
    "those entries at any depth that satisfy the reference or predicate, each "
    "once, every level before the levels nested in it in mapping order, or None "
    "if there are none; the single-result form returns the first of them. "
    "Nested mappings are those of the given types only, and nothing is modified.",
    ["inputs"],
    "any nested mapping, constant or callable reference, match mode, base "
    "predicate and mapping types",
    "tests dig in one or two dictionaries",
    [STRUCT], [("search", f"{STRUCT}: dig_for / dig_for_all")],
    "TLA+ definition evaluated by TLC on every recorded call: exhaustive small "
    "trees plus random ones",
    "all trees up to the bound, compared with the specification by TLC",
)
prop(
    "S02", "Deep editing changes exactly the matching entries",
    "Editing a nested mapping in place replaces the value of exactly those "
    "entries for which the filter holds, at every depth, by the setter's "
    "result, and leaves everything else, including key order and identity of "
    "untouched levels, as it was. Values the setter introduces are themselves "
    "searched, and the same mapping is returned.",
    ["inputs"],
    "any nested mapping, filter and setter (including ones that introduce or "
    "remove nested levels)",
    "tests edit one dictionary",
    [STRUCT], [("edit", f"{STRUCT}: dig_and_edit")],
    "TLA+ definition evaluated by TLC on every recorded call",
    "exhaustive small trees plus random ones",
)
prop(
    "S03", "Flattening nested mappings loses and invents nothing",
    "Unnesting yields one flat entry per leaf, keyed by its path joined as "
    "documented, with exactly the leaf's value; records have one row per "
    "innermost mapping carrying its entries and the names of all its enclosing "
    "levels. Auto-nesting dictionaries store and return what was assigned at "
    "any depth and convert to equal plain dictionaries.",
    ["inputs", "histories"],
    "any nested mapping, level names, escape strings and mapping types",
    "tests flatten one mapping",
    [STRUCT], [("unnest", f"{STRUCT}: _unnest / unnest"),
               ("records", f"{STRUCT}: to_records"),
               ("NestingDict", f"{STRUCT}: NestingDict")],
    "TLA+ definition evaluated by TLC on every recorded call, with a checked "
    "path/leaf bijection",
    "exhaustive small trees plus random ones",
)
prop(
    "S04", "Recursive merge prefers the second mapping, leaf by leaf",
    "Recursively merging two mappings gives, for each path, the second "
    "mapping's entry if it has one and the first's otherwise, descending "
    "wherever both have mappings of the given types and replacing whole values "
    "elsewhere. Neither input is modified, merging with an empty mapping or "
    "with itself changes nothing, and merging is associative where types agree.",
    ["inputs"],
    "any pair of nested mappings and any mapping types",
    "tests merge one pair",
    [STRUCT], [("merge", f"{STRUCT}: rmerge")],
    "TLA+ definition evaluated by TLC on every recorded call, algebraic laws "
    "checked by TLC",
    "exhaustive small tree pairs plus random ones",
)
prop(
    "S05", "Nested lookup returns what is there, else the default",
    "Looking up a path in nested mappings, sequences and objects returns "
    "exactly the item or attribute at the end of the path, items taking "
    "precedence over attributes at each level, and the default if any level "
    "lacks it. It never raises for a missing key, index or attribute, and "
    "present values of None, zero or empty are returned, not defaulted.",
    ["inputs"],
    "any nesting of mappings, lists, tuples, named tuples and objects, any path",
    "tests look up a few paths",
    [STRUCT], [("lookup", f"{STRUCT}: get_from / getitemattr")],
    "TLA+ definition evaluated by TLC on every recorded call",
    "exhaustive small structures and paths plus random ones",
)
prop(
    "S06", "Collection helpers return exact, order-preserving results",
    "Listing, enumerating, reindexing, inserting after, separating and getting "
    "across collections return exactly the documented elements in their "
    "original order without altering their inputs. Hash dictionaries return "
    "for every assigned key an item equivalent to the last one assigned to it, "
    "storing equivalent items once.",
    ["inputs", "histories"],
    "any collections, keys, predicates and equivalences; any assignment history",
    "tests try single inputs",
    [STRUCT], [("helpers", f"{STRUCT}: listify, reindex_mapping, "
                f"enumerate_as_mapping, insert_after, get_from_all, separate_by"),
               ("HashDict", f"{STRUCT}: HashDict")],
    "TLA+ definitions and a HashDict spec, recorded calls and histories "
    "validated by TLC",
    "exhaustive small inputs plus random ones",
)
prop(
    "S07", "Pooled execution returns every record's own result",
    "Mapping a function over argument records gives, under each record's key, "
    "exactly that record's result or the exception it raised, whether run "
    "serially, in any number of processes or in chunks, whatever order they "
    "finish in. Failed records are raised, kept or filtered as requested, and a "
    "pool can be used repeatedly. The records stay as they were.",
    ["schedules", "inputs", "configurations"],
    "any records, distinct keys, failures (except of the process itself), completion orders, thread counts and chunkings",
    "tests run a couple of fixed configurations",
    [STRUCT], [("pool", f"{STRUCT}: MaybePool / map_into_pool"),
               ("chunks", f"{STRUCT}: _chunkwrap")],
    "TLA+ pool spec (dispatch, chunking, out-of-order completion) checked by "
    "TLC; recorded runs of the real pool validated by TLC",
    "completion orders are forced by delays and gates in the mapped function",
)
prop(
    "F01", "Function combinators behave as their definitions",
    "The functional helpers (optional, greedy map, filters, argument stopping, "
    "splatting, triggers, constants, membership, intersection and disjointness) "
    "equal their definitions for all arguments: wrapped functions get exactly "
    "the intended arguments once, results and order are preserved, and "
    "exceptions are swallowed, reported or propagated exactly as declared.",
    ["inputs", "programs"],
    "any functions, arguments, collections and exceptions",
    "tests try single inputs",
    [FUNC], [("combinators", f"{FUNC}: all")],
    "TLA+ definitions evaluated by TLC on every recorded call",
    "exhaustive small inputs plus random ones",
)
prop(
    "V01", "Constant extraction finds exactly the constant rows or columns",
    "Extracting constants from a table selects exactly the columns (or rows) "
    "whose non-null entries (or all entries, if nulls count) are all equal, "
    "reports each one's value under its own name, and returns the others "
    "unchanged, in order, when asked to drop them. Constants and variables "
    "together make up the original table, which is not modified. (Tables have "
    "a row and a column; a line of nulls alone is open if nulls count.)",
    ["inputs", "configurations"],
    "any table, nulls, dtypes and option combination",
    "tests try one table",
    [PIVOT], [("extraction", f"{PIVOT}: extract_constants")],
    "TLA+ table spec evaluated by TLC on exhaustive small tables and random "
    "ones recorded from the code",
    "cell values are symbolic; nulls explicit",
)
prop(
    "V02", "Table reshaping keeps every value under its own label",
    "Splitting, unpacking, repeating, smashing, squeezing, deduplicating, "
    "column selection, unique records and key junctions put every value of the "
    "input under exactly the label their definition gives it, in order, with "
    "none lost, invented or moved. Unequal duplicate columns are refused. Text "
    "methods mapped over a column give each cell's own result under its own "
    "label, and numpy scalars become the equal plain Python value.",
    ["inputs"],
    "any tables, labels (also duplicate ones), nulls (except as keys) and options",
    "tests try one table each",
    [PIVOT], [("reshaping", f"{PIVOT}: split_on, unpack, unpack_column, "
               f"dupe_df_block, smash, squeeze, typed_columns, "
               f"check_and_drop_duplicate_columns, unique_to_records, junction, pdstr, "
               f"itemize_numpy")],
    "TLA+ table spec evaluated by TLC on recorded calls",
    "exhaustive small tables plus random ones",
)
prop(
    "V03", "Downcasting stays within tolerance in the smallest type that fits",
    "Downcasting numbers returns the same number of elements in order, each "
    "within the absolute and relative tolerance of the original, nonfinite "
    "values unchanged, integers exact. The type chosen is the first of the "
    "documented sequence that meets the bounds and tolerances, the reported "
    "errors are the true ones, and tables keep their labels and other columns. "
    "If asked for, integers next to NaNs become nullable ones with nulls there. "
    "Two extremes are in bounds of a type exactly if it has room for both.",
    ["inputs", "configurations"],
    "any nonempty integer or any real arrays at and around every type's bounds, any tolerances, with and without nonfinite values (no booleans or nullable integers as input)",
    "tests try a few arrays; the bounds of every type matter",
    [PIVOT], [("downcast", f"{PIVOT}: downcast / downcast_df / check_in_dtype_bounds")],
    "TLA+ selection spec over exact rationals evaluated by TLC on recorded calls",
    "numbers as scaled integers; boundaries of every type enumerated",
)
prop(
    "M01", "Chunked sorting writes a sorted permutation of the rows",
    "Chunked sorting of a parquet file writes exactly the input's rows, each "
    "once with all columns, ordered by the sort column in the requested "
    "direction with nulls last, whatever the row groups, chunk count, "
    "duplicates and value distribution. An inline processor sees each chunk of "
    "rows once, and the requested layout and schema do not change the rows.",
    ["inputs", "configurations"],
    "any row groups (at least one), numeric values (integers, floats, decimals; ties, negative, extreme, null, NaN as null), chunk counts of two or more, directions and options",
    "tests sort one file; lost rows appear only at window boundaries",
    [MOSAIC], [("windows", f"{MOSAIC}: sort_chunked"),
               ("window read", f"{MOSAIC}: read_between")],
    "TLA+ windowed sort spec checked by TLC; recorded runs validated by TLC",
    "exhaustive small columns plus random files",
)
prop(
    "M02", "Bounded reads and metadata describe exactly the file's contents",
    "Reading between bounds returns exactly the rows whose value is at least "
    "the lower and less than the upper bound, in file order with all columns, "
    "from any row-group layout, or nothing if no group can contain any. "
    "Metadata tables have one entry per column (or column and group) with "
    "counts and sizes that add up to the file's.",
    ["inputs"],
    "any file layout, field, bounds and extended setting (value counts may or may not count nulls)",
    "tests read one file",
    [MOSAIC], [("bounded read", f"{MOSAIC}: read_between"),
               ("metadata", f"{MOSAIC}: parquet_metadata_records / meta_column_df")],
    "TLA+ row-group spec checked by TLC; recorded runs validated by TLC",
    "exhaustive small layouts plus random files",
)
prop(
    "R01", "Scraping returns each field's own match, parsed or verbatim",
    "Scraping a label gives for each field the first match of its own pattern, "
    "as a Python literal if its text is one and verbatim otherwise, and None if "
    "there is none; supplemental results take precedence. No text makes it "
    "fail, bulk scraping keeps file order, and cached scraping equals uncached.",
    ["inputs", "histories"],
    "any label text, pattern set, file order and sequence of cached calls",
    "tests scrape fixed labels",
    [SCRAPE], [("scraping", f"{SCRAPE}: make_scraper / scrape_patterns / "
                f"bulk_scrape_metadata / scrape_from_file")],
    "TLA+ scrape spec evaluated by TLC on recorded calls",
    "texts are assembled from symbolic fields, so the expected match is known "
    "to the specification",
)
prop(
    "R02", "Label trimming cuts exactly after the first known ending",
    "Trimming a file returns exactly its bytes up to and including the earliest "
    "match of the first known ending that occurs within the size limit, or the "
    "limited head of the file if none occurs, or an error if asked for. Reading "
    "a head or a label never returns more than, or anything other than, the "
    "requested leading bytes.",
    ["inputs"],
    "any contents, positions of endings relative to the limit, limits, sources",
    "tests trim fixed labels",
    [SCRAPE], [("trim", f"{SCRAPE}: trim_label / head_file / get_label_text")],
    "TLA+ byte-sequence spec evaluated by TLC on exhaustive small files",
    "all short byte strings over the ending alphabet, all limits",
)
