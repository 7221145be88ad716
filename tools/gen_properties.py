"""Writes /verif/properties.jsonl (kept as code so that edits stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=None)))

ST, SU, MO, UT, CF, TP = ("mandala/storage.py", "mandala/storage_utils.py", "mandala/model.py",
    "mandala/utils.py", "mandala/cf.py", "mandala/tps.py")
DV, DM, DS, DD, DT, DTB, DU = ("mandala/deps/versioner.py", "mandala/deps/model.py",
    "mandala/deps/shallow_versions.py", "mandala/deps/deep_versions.py",
    "mandala/deps/tracers/dec_impl.py", "mandala/deps/tracers/tracer_base.py", "mandala/deps/utils.py")

prop("C01", "Two calls share a memo exactly when their counted inputs agree",
 "Two calls of memoized functions share one stored result if and only if they are calls of the same function (and function version) that bind equal values to every argument that is not explicitly ignored, and those ignored are left out. In particular an argument bound to one parameter is never mistaken for an argument bound to another, in any calling style, including extra positional and extra keyword arguments.",
 ["inputs"], "all argument values, all placements of the arguments over positional/keyword/variadic parameters, all choices of ignored arguments",
 "The tests call a handful of fixed signatures with fixed values; whether two arbitrary argument bindings can be confused quantifies over all pairs of calls.",
 [MO, ST], [("call history id / content id / pre-call id", "mandala/model.py:Op.get_call_history_id, get_call_content_id, get_pre_call_id"),
  ("argument naming and ignoring", "mandala/storage.py:Storage.parse_args")],
 [("call hid", "identity under which a call and its outputs are stored", "mandala/model.py:Call.hid")])

prop("C02", "A remembered call is never re-executed, and returns what it returned",
 "Inside a storage context, calling a memoized function again with arguments that carry the same values returns the same value without executing the function body, whether the earlier call is uncommitted, committed, evicted from the cache, or was made by an earlier session on the same database. This also holds when the arguments carry equal content with a different computational history.",
 ["histories", "inputs"], "all interleavings (up to a length) of calls, context exits, cache clears and re-opened sessions, with arbitrary argument values",
 "Tests replay a few fixed scripts; whether some mixture of commit, eviction and re-opening makes a lookup miss depends on the whole history.",
 [ST, SU], [("lookup by history id then content id", "mandala/storage.py:Storage.lookup_call"), ("cache with persistent fallback", "mandala/storage_utils.py:CachedCallStorage, CachedDictStorage")])

prop("C03", "A memoized function receives exactly the arguments the caller bound",
 "When the body of a memoized function runs, in normal or no-op mode, each of its parameters has the value that a plain Python call with the same argument list would have given it, with storage references, ignore markers and value pointers replaced by the values they stand for. No calling style (positional, keyword, extra positional, extra keyword, defaults, positional-only, keyword-only) changes, drops, duplicates or reorders an argument or makes a valid call fail.",
 ["inputs", "programs"], "all signatures mixing the five parameter kinds (bounded counts), all valid call shapes, all values",
 "Tests use a few signatures; the transformation goes through renamed and re-split argument lists whose corner cases are combinations of parameter kinds.",
 [ST, UT, MO], [("binding and re-splitting arguments", "mandala/storage.py:Storage.parse_args, Storage.call_internal; mandala/utils.py:boundargs_to_args_kwargs")])

prop("C04", "Outputs keep their number, order and names",
 "A memoized function that returns k values gives the caller k references whose values are the returned ones in the returned order, both when the body ran and when the result was looked up, for every declared number and naming of outputs. A return that contradicts the declared number of outputs is rejected rather than recorded.",
 ["inputs", "programs"], "all output counts up to the bound (beyond 10), all name lists, all return annotations accepted",
 "Tests return at most a few values; ordering is rebuilt from generated names, so errors only show for larger counts or particular name lists.",
 [UT, MO], [("naming and splitting returns", "mandala/utils.py:parse_returns, dump_output_name, parse_output_name"), ("re-ordering", "mandala/model.py:Op.get_ordered_outputs")])

prop("C05", "The write-back key/value cache behaves like one dictionary",
 "Through any sequence of set, get, exists, drop, commit and clear, the cached key/value store answers like a dictionary holding the latest value per key. After a commit a fresh store over the same database sees exactly the same contents, clearing with uncommitted data is refused unless explicitly allowed, and then loses only the uncommitted writes.",
 ["histories"], "all operation sequences up to the bound, over all key collisions and values",
 "Tests never drive the cache directly; coherence is a property of operation sequences (dirty tracking, eviction, drop of dirty keys).",
 [SU], [("dirty-key write-back cache", "mandala/storage_utils.py:CachedDictStorage"), ("persistent table", "mandala/storage_utils.py:SQLiteDictStorage")],
 [("dirty_keys", "keys not yet persisted", "mandala/storage_utils.py:CachedDictStorage.dirty_keys")])

prop("C06", "The write-back call cache behaves like one table of calls",
 "Through any sequence of save, lookup, drop, commit and clear, the cached call store answers existence and data queries (by history id and by content id) exactly like a table of the saved and not dropped calls, whatever part of it is in memory or in the database. After a commit a fresh store over the same database answers the same.",
 ["histories"], "all operation sequences up to the bound over several calls, including calls sharing a content id",
 "Tests only look calls up right after saving; the fall-through between cache and database is a property of histories.",
 [SU], [("dirty-hid write-back cache", "mandala/storage_utils.py:CachedCallStorage, InMemCallStorage, SQLiteCallStorage")])

prop("C07", "A commit is all-or-nothing and a failed commit loses nothing",
 "If a process dies or a database error occurs at any point while a session is being committed, the database afterwards contains either everything committed before or that plus everything in the session, never part of it, and every call visible in the database has its function, argument and output records. After an error (not a crash), a later successful commit of the same session persists everything the failed one should have.",
 ["crash_points", "fault_sequences"], "every database write of the commit as crash or error point, all splits of the session between already committed and new data",
 "No test injects a crash or a database error; the guarantee quantifies over the point of failure.",
 [ST, SU], [("single transaction for the whole commit", "mandala/storage.py:Storage.commit"), ("dirty tracking", "mandala/storage_utils.py:CachedDictStorage.commit, CachedCallStorage.commit")])

prop("C08", "Storage transactions survive transient database errors",
 "An operation run as a storage transaction that meets transient database errors is retried and, once an attempt succeeds, takes effect exactly once and returns its result; any other error leaves the database unchanged and reaches the caller. An operation given an existing connection never begins, commits or rolls back on its own, and no failed attempt prevents later transactions from running.",
 ["fault_sequences"], "all sequences of transient/permanent errors over the statements of up to several attempts",
 "No test makes the database fail; the outcome depends on which statement of which attempt fails.",
 [SU], [("transaction decorator", "mandala/storage_utils.py:transaction")])

prop("C09", "Overflowed values are as durable and retrievable as ordinary ones",
 "A stored value reads back equal whether it was small enough for the database or large enough to go to the overflow directory, for every size around the threshold, and existence, listing, deletion and storing the same key's value again treat both the same. A crash while an overflow value is being written never makes a damaged value readable or blocks storing it again.",
 ["inputs", "crash_points", "histories"], "all value sizes relative to the threshold, all operation sequences up to the bound, all crash points within a write",
 "Tests exercise no overflow and no crash.",
 [SU], [("size split", "mandala/storage_utils.py:SQLiteDictStorage.set"), ("file store", "mandala/storage_utils.py:JoblibDictStorage")])

prop("C10", "Saving and loading a value gives back an equal value",
 "A value passed to or returned from a memoized function, plain or nested in annotated lists and dictionaries to any depth, is given back equal (same nesting, order, keys and leaves) when its reference is unwrapped or attached, in the same session, after eviction, and in a new session; loading lazily and then unwrapping agrees with loading eagerly.",
 ["inputs", "histories"], "all nested shapes within a depth/width bound, all leaf values, in-memory and re-opened",
 "Tests use flat lists in one session; nesting combined with lazy reloading is never exercised.",
 [ST, MO], [("save/load of references", "mandala/storage.py:Storage.save_ref, Storage.load_ref"), ("recursive unwrap", "mandala/model.py:recurse_on_ref_collections")])

prop("C11", "Collections are identified by their contents and linked to their elements",
 "Two annotated lists or dictionaries passed as arguments get the same identity exactly when they have equal elements in the same positions or keys, and each is linked by recorded structural calls to each of its elements, so provenance can be followed from element to collection and back for values built from or returned by memoized functions.",
 ["inputs"], "all nested list/dict shapes within the bound, element equality patterns arbitrary, including reserved-looking keys",
 "Tests check two concrete lists.",
 [ST, MO], [("structural operations", "mandala/model.py:__make_list__, __make_dict__, __list_getitem__, __dict_getitem__"), ("construct/destruct", "mandala/storage.py:Storage.construct, Storage.destruct")])

prop("C12", "Provenance queries return exactly the recorded graph's answers",
 "Asking for creators, consumers, inputs, outputs, and transitive dependencies or dependents of references and calls returns exactly those determined by the recorded calls, for every recorded call graph, and the in-memory and the database implementations agree.",
 ["inputs"], "all call graphs up to a bounded number of calls and references, all query sets",
 "Tests query a few fixed graphs.",
 [SU], [("graph queries", "mandala/storage_utils.py:InMemCallStorage.get_*, SQLiteCallStorage.get_*")])

prop("C13", "Deleting calls removes exactly the requested calls and their dependents",
 "Deleting a set of calls removes exactly these calls, plus (if asked) all calls that transitively depend on them, whether cached, uncommitted or persisted; every other call stays retrievable. Deleted calls are executed and stored again when next requested, and later commits succeed.",
 ["histories", "inputs"], "all call graphs, split of calls over uncommitted / cached / evicted, and requested subsets within the bound",
 "Tests delete calls only in one fixed history.",
 [ST, SU], [("deletion", "mandala/storage.py:Storage.drop_calls")])

prop("C14", "Garbage collection removes exactly what nothing refers to",
 "Cleaning up references removes exactly the references that take part in no recorded call (and are not elements of a collection that does), together with the values that no remaining reference or call uses; afterwards every remaining call and reference is still fully loadable.",
 ["inputs", "histories"], "all call graphs and orphan patterns within the bound, including values shared by several references",
 "No test covers it.",
 [ST], [("orphan detection", "mandala/storage.py:Storage.get_orphans, get_unreferenced_cids, cleanup_refs")])

prop("C15", "Context nesting restores modes and always commits on the way out",
 "After any well-bracketed nesting of storage contexts in run and no-op mode, with or without exceptions passing through, the mode inside each level is the one requested for it, leaving the outermost level restores the state of having no active storage and commits the recorded calls, and inner levels do not commit or deactivate it.",
 ["histories", "fault_sequences"], "all bracketed sequences of enter/exit up to a depth and length, over run and no-op contexts, exceptions at any point",
 "Tests use one nesting.",
 [ST], [("mode stack", "mandala/storage.py:Storage.__enter__, __exit__, noop"), ("active context", "mandala/model.py:Context")])

prop("C16", "Disallowing new calls blocks exactly the calls that are not stored",
 "While new calls are disallowed, a call whose result is stored returns it as usual and any other call fails without executing the function body and without recording anything; allowing them again restores normal behaviour.",
 ["histories", "inputs"], "all sequences of toggles and calls within the bound, all arguments",
 "One fixed script is tested.",
 [ST], [("guard before execution", "mandala/storage.py:Storage.call_internal")])

prop("C17", "Function source history is a well-formed version tree",
 "Through any sequence of source syncs, re-syncs to earlier sources and user verdicts (same behaviour or changed behaviour), the recorded history of a function is a tree rooted at its first version, its current version is the synced source, identical sources share one version, and two versions share a behaviour class exactly when connected by same-behaviour edits.",
 ["histories", "inputs"], "all sequences of edits and verdicts within the bound",
 "Tests build a few histories by hand.",
 [DS], [("DAG sync/init", "mandala/deps/shallow_versions.py:ContentVersioner/DAG.sync"), ("semantic hash inheritance", "mandala/deps/shallow_versions.py")])

prop("C18", "A versioned lookup only reuses results computed under equivalent code",
 "In a versioned storage, a stored result is reused for a call exactly when the stored execution used versions of the function and of every dependency it touched that are behaviour-equivalent to the current ones; versions of code that the execution did not touch are irrelevant.",
 ["histories", "inputs"], "all sets of recorded versions (dependency footprints with content/behaviour versions) and all current code states within the bound",
 "Tests use one dependency pattern.",
 [DV, DD], [("lookup among recorded versions", "mandala/deps/versioner.py:Versioner.lookup_call, get_semantically_compatible_versions"), ("deep versions", "mandala/deps/deep_versions.py:Version")])

prop("C19", "Dependency tracing records who used what, whatever raises or nests",
 "While a memoized function runs under the decorator tracer, every tracked function (other than generator functions) and global that it uses, directly or through other tracked functions, ends up in its dependency graph, attributed to the function that used it, and the tracer's call stack is balanced at the end, including when tracked code raises exceptions that are caught further up and when memoized calls are nested.",
 ["programs", "fault_sequences"], "all bounded call trees of tracked functions, with exceptions raised and caught anywhere",
 "Tests trace a few straight-line programs.",
 [DT, DTB, DM], [("call stack and graph", "mandala/deps/tracers/dec_impl.py:DecTracer, track")])

prop("C20", "Computation frame edits keep the frame consistent and honour in-place",
 "After any sequence of structural edits (adding, renaming and dropping variables, functions, edges, references and calls; merging variables) a computation frame is internally consistent: node, edge, element and reverse-lookup views describe the same graph. Non-in-place edits leave the original frame untouched and give the frame the in-place edit would have produced.",
 ["histories", "inputs"], "all consistent frames over a bounded number of nodes/elements, all single edits and short sequences",
 "Tests check a couple of frames.",
 [CF], [("edit operations", "mandala/cf.py:ComputationFrame.drop_*, add_*, rename*, merge*"), ("consistency check", "mandala/cf.py:ComputationFrame._check")])

prop("C21", "Selecting part of a frame returns exactly the reachable part",
 "Restricting a frame to nodes, elements, upstream, downstream or their intersection keeps exactly the elements that the call graph makes reachable in that direction from the chosen ones, keeps the frame consistent, and does not alter the original.",
 ["inputs"], "all consistent frames over bounded nodes/elements, all selections",
 "Tests check a couple of selections.",
 [CF, UT], [("subset selection and reachability", "mandala/cf.py:ComputationFrame.select_nodes, select_subsets, upstream, downstream, get_reachable_elts_acyclic, get_direction_subset")])

prop("C22", "Frame union, intersection and difference are the set operations",
 "Union, intersection and difference of two frames contain exactly the nodes, edges, references and calls that the corresponding set operation gives, are consistent frames, and leave their operands unchanged.",
 ["inputs"], "all pairs of consistent frames over a bounded universe",
 "One merge is tested.",
 [CF, UT], [("set algebra", "mandala/cf.py:ComputationFrame._binary_union, _binary_intersection, _binary_setwise_difference"), ("dict helpers", "mandala/utils.py:get_setdict_union and friends")])

prop("C23", "Expanding a frame adds exactly the matching history",
 "Expanding a frame backward (forward) adds exactly the recorded calls that created (consumed) those references of the expanded variables that are not yet joined to a creator (consumer) in the frame, with the inputs (outputs) of these calls, joined to the references they came from; it adds no unrelated reference, loses nothing that was there and keeps the frame consistent. Recursive expansion and expand_all reach a fixpoint, where expanding again adds nothing, that contains the complete recorded history of the references started from.",
 ["inputs"], "all recorded call graphs up to a bounded size, all starting references",
 "Tests expand a few fixed computations.",
 [CF], [("expansion", "mandala/cf.py:ComputationFrame.expand_back, expand_forward, expand, expand_all")])

prop("C24", "Graph helper algorithms are correct on every graph",
 "The strongly connected components, topological orders, condensation, reachability and edge-path computations used to arrange and evaluate frames agree with their mathematical definitions on every graph, including graphs with cycles and self-loops. The edges on paths between two nodes include every edge of every simple path and only edges that lie on some walk between them; every computation terminates.",
 ["inputs"], "all directed graphs up to a bounded number of nodes",
 "Not tested directly.",
 [UT, CF], [("graph algorithms", "mandala/utils.py:find_strongly_connected_components, topological_sort, create_super_graph, almost_topological_sort, get_edges_in_paths")])

prop("C25", "Ignored, defaulted and pointed-to arguments are transparent",
 "Wrapping an argument as ignored, or giving a newly added parameter its recorded default, makes the call share the memo of the call without it, while the function body still receives the plain value, inside and outside a context; a value pointer is identified by its name only and the body receives the object it points to.",
 ["inputs"], "all values, all combinations of wrapped and unwrapped arguments",
 "Tests use single values.",
 [ST, MO], [("special wrappers", "mandala/model.py:_Ignore, _NewArgDefault, ValuePointer; mandala/storage.py:Storage.parse_args")])

prop("C26", "What is stored does not change when the program mutates its objects",
 "Mutating an object after it was passed to or returned from a memoized call, or mutating a value obtained from the storage, never changes what later lookups or sessions read for that stored value (a reference that still holds its value in memory does share it with the program).",
 ["histories", "inputs"], "all bounded interleavings of calls, mutations and reads",
 "Not tested.",
 [ST], [("serialized value store", "mandala/storage.py:Storage.save_ref, load_ref")])

prop("C27", "Sessions sharing a database can record the same calls independently",
 "If several sessions opened on one database record overlapping sets of calls and commit in any order, every commit succeeds, nothing recorded by either is lost, and afterwards each of the calls is retrievable from a new session.",
 ["schedules", "histories"], "all orders of operations and commits of two sessions over overlapping calls within the bound",
 "Tests use a single session.",
 [SU, ST], [("insert path", "mandala/storage_utils.py:SQLiteCallStorage.save, SQLiteDictStorage.set")])

prop("C28", "Calls of a frame are aligned correctly in its tabular view",
 "Turning a frame into a table lists every final value on the paths between the chosen nodes together with everything in the frame it was computed from (its history); every row is the joint history of values that agree on the history they share: no final value is lost and no relation is invented.",
 ["inputs"], "all frames and column choices",
 "Tests only check that a table is produced.",
 [CF], [("tabular view", "mandala/cf.py:ComputationFrame.df, get_joint_history_df")])

prop("C29", "Code extraction finds every function and global a module defines",
 "The code state extracted from the user's files contains each function, method and tracked global under a stable key with its exact source text, for every module layout the crawler supports.",
 ["programs"], "all source files",
 "Tests use a few generated modules.",
 [DU, "mandala/deps/crawler.py"], [("crawler", "mandala/deps/crawler.py:crawl_obj, crawl_static")])

prop("C30", "Computation frames show exactly what was asked for",
 "The frame of a function shows every recorded call of it and no others, with one variable for each of its inputs and outputs holding exactly the values these had; the frame of references (one, several, their history ids, a dictionary of variables) holds just these, in the variables asked for, and what it was given stays unchanged. Nodes always get names of their own, whatever functions, parameters and outputs are called, also when the frame is expanded, and a frame's edges and indices agree with the recorded calls.",
 ["histories", "inputs"], "all histories, all sets of references, all coincidences of values and of the names of functions, parameters, outputs and variables",
 "Tests build frames from functions and references whose names never coincide, and from results that all differ.",
 [CF, ST], [("building frames", "mandala/cf.py:ComputationFrame.from_op, from_refs, from_vars, _group_calls; mandala/storage.py:Storage.cf"), ("naming", "mandala/cf.py:ComputationFrame.get_new_vname, get_new_fname, expand_back, expand_forward")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
