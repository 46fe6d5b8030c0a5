#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
        "observe_at": observe or [], "hook_needed": hook}})

ST, SU, MO, UT, CF = ("mandala/storage.py", "mandala/storage_utils.py", "mandala/model.py",
                      "mandala/utils.py", "mandala/cf.py")
VE, SV, DV, DM, CR, DT = ("mandala/deps/versioner.py", "mandala/deps/shallow_versions.py",
    "mandala/deps/deep_versions.py", "mandala/deps/model.py", "mandala/deps/crawler.py",
    "mandala/deps/tracers/dec_impl.py")

# ----------------------------------------------------------------- memoization
prop("M01", "Memoized calls are transparent and never compute the same thing twice",
 "Inside a storage context, a memoized function returns references whose values equal what the plain function returns on the unwrapped arguments, in the same output order. "
 "Once a call has completed, a later call of the same function on arguments with equal contents returns the saved results without running the body again, whatever route produced the arguments (raw values, results of earlier calls, results of other calls with equal contents), in whatever later block or session on the same database, and whatever was cached, preloaded or cleared in between. "
 "When new calls are not allowed, calls with saved results are still answered, and any other call is refused without running anything. "
 "Calls that differ in function or in the contents of any non-ignored argument are never answered from each other's results.",
 ["programs", "histories", "inputs"],
 "All programs (sequences of calls of several single- and multi-output functions, on raw values and on earlier results) interleaved with block exits, cache clears, preloads and reopening of the database.",
 "The tests run a few fixed programs in one session against an in-memory database; reuse depends on the whole history of calls, commits and cache operations.",
 [ST, SU, MO], [("lookup by history id, then by content id", ST + ": lookup_call"), ("cached call storage falling through to the database", SU + ": CachedCallStorage"), ("call identifiers", MO + ": Op.get_call_content_id")],
 [("call cache", "calls of this session not yet or already persisted", SU + ": CachedCallStorage")],
 ["value of returned references", "number of executions of each function body"])

prop("M02", "Reference identities encode exactly content and history",
 "Two references have the same content id exactly when their values have the same content, and the same history id exactly when they come from the same computation: the same raw value, or the same output of the same function applied to arguments with the same histories. "
 "The ids do not depend on the process, the hash seed, the session, whether results were computed or looked up, or how the arguments were spelled (positional, keyword, omitted defaults). "
 "Every reference produced by a call has exactly one creating call in the storage.",
 ["programs", "inputs", "configurations"],
 "All pairs of references produced by all bounded programs over a small alphabet of functions and values, under all spellings of the arguments and under several hash seeds and processes.",
 "The tests compare a handful of ids in a single process; uniqueness and stability are statements about all pairs of programs and about separate processes.",
 [MO, ST, UT], [("history/content id derivation", MO + ": Op.get_call_history_id, get_output_history_ids, wrap_atom"), ("content hash", UT + ": get_content_hash")],
 observe=["content and history ids of returned references", "creator query"])

prop("M03", "Argument passing and ignored arguments are exact for every signature",
 "For every function signature and every legal way of calling it, the body of a memoized function receives exactly the arguments it would have received if called directly, with references and wrapper objects replaced by their values, both when memoizing and when memoization is switched off. "
 "The identity of a call depends on every argument except those explicitly marked as ignored and new arguments left at (or given) their declared backward-compatible default; named value pointers are identified by their name alone. "
 "A call that would be illegal for the plain function is rejected and leaves nothing in the storage.",
 ["inputs", "configurations"],
 "All combinations of parameter kinds (positional-only, positional-or-keyword, variadic, keyword-only, variadic keyword), defaults, ignore markers, new-argument defaults and value pointers up to a small arity, and all spellings of each call.",
 "The tests use a few fixed signatures; binding bugs show only for particular combinations of parameter kinds, defaults and wrappers.",
 [ST, MO, UT], [("argument parsing", ST + ": parse_args"), ("reconstruction of the call", ST + ": call_internal"), ("no-op argument reconstruction", UT + ": boundargs_to_args_kwargs")],
 observe=["arguments seen by the function body", "number of executions", "returned ids"])

prop("M04", "Collections are stored element by element and round-trip exactly",
 "A list or dictionary annotated as a memoized collection, nested to any depth and passed in as raw values, as references or as a mix, is seen by the function as the equal plain collection and is read back from storage in any later session as the equal collection, with the same keys and the same order of list elements. "
 "Each element is a reference of its own with a single content shared by equal elements, and the links between a collection and its elements are recorded, so that an element is connected to the collection in both directions. "
 "Passing an element of a returned collection to another function behaves like passing its value and keeps its history.",
 ["inputs", "programs"],
 "All nested list/dictionary shapes up to a small size and depth over a small value alphabet, as inputs and outputs, with every mix of raw elements and references, in the creating session and after reopening.",
 "The tests use one or two flat lists; nesting, empty collections, shared elements, mixed references and later sessions multiply the cases.",
 [ST, MO, "mandala/tps.py"], [("construction and destruction of collections", ST + ": construct, destruct"), ("structural functions", MO + ": __make_list__, __list_getitem__, __make_dict__, __dict_getitem__"), ("loading", ST + ": load_ref")],
 observe=["unwrapped collections", "element references", "provenance of elements"])

prop("M05", "A crash at any point loses no completed block and never leaves half a block",
 "Whatever instant the process dies at, reopening the database succeeds and shows all the calls of every block whose exit had returned, with all their values readable. "
 "Of a block that was being committed either all of its calls are there or none of them is; a call is never there without its function, its inputs, outputs and their values. "
 "Running the interrupted program again completes normally and gives the same results, whether values are kept in the database or in separate files.",
 ["crash_points", "histories"],
 "Every write boundary of the database and every (possibly torn) write of a value file during every bounded history of blocks, deletions and cleanups.",
 "The tests never kill the process; atomicity is a statement about all intermediate on-disk states.",
 [ST, SU], [("commit of all tables in one transaction", ST + ": commit"), ("overflow files", SU + ": JoblibDictStorage"), ("transaction decorator", SU + ": transaction")],
 observe=["state of a fresh storage opened on a copy of the files at each instant"])

prop("M06", "A failed write is reported, is all-or-nothing, and loses no completed work",
 "If the database refuses any single write or commit (disk full, I/O error, lock), the operation reports the error or retries it, and what is on disk afterwards is the state before or after that operation, never a mixture (only a cleanup may have removed part of the unused references). "
 "Results computed in the session stay available in it, and the next commit that is not refused makes all of them durable. "
 "A failure never leaves the storage or the database in a state in which later operations of the same session fail.",
 ["fault_sequences", "histories"],
 "Every position at which one statement or commit of a bounded history can fail, for file-backed and in-memory databases, followed by every short continuation.",
 "The tests never inject faults; the claim quantifies over every failing statement in every history.",
 [ST, SU], [("dirty sets cleared on commit", SU + ": CachedDictStorage.commit, CachedCallStorage.commit"), ("retry with rollback", SU + ": transaction"), ("commit at block exit", ST + ": __exit__")],
 observe=["exception raised", "state of the files", "later results"])

prop("M07", "Caching, preloading and session boundaries are unobservable",
 "Clearing caches, preloading any part of the storage, committing early, and closing and reopening the database never change the answer of any later operation: calls, unwrapping, attaching, loading a reference, creator and consumer queries, and computation frames all give the same results as in a session in which none of this happened. "
 "Clearing caches that still hold unsaved work is refused unless explicitly allowed, and then forgets exactly the unsaved work.",
 ["histories"],
 "All bounded interleavings of calls, commits, cache clears (at any time), the preload variants, deletions and reopening, compared with the same history without cache operations.",
 "The tests exercise each cache operation at most once and in fixed positions.",
 [ST, SU], [("cached dictionary storage", SU + ": CachedDictStorage"), ("cached call storage", SU + ": CachedCallStorage"), ("preload and clear", ST + ": preload*, clear_cache")],
 observe=["results of all later operations"])

prop("M08", "Deleting calls removes exactly those calls and, on request, what depends on them",
 "Deleting a set of calls removes exactly these calls, or with dependents exactly the calls reachable forward from their outputs through any number of steps; every other call stays and keeps giving the saved results. "
 "After the deletion, in the same session and after reopening, a deleted call is not found by any query and is executed again when it is next made, and the re-created call is saved like a new one. "
 "Deletion gives the same result whether calls are given as call objects, as ids, as any iterable, through a computation frame or through the cells of a table of calls, and whether or not they are cached.",
 ["histories", "inputs"],
 "All call graphs of bounded size (chains, diamonds, shared inputs, repeated contents, collections), all subsets of calls to delete, with and without dependents, in every cache state, followed by re-execution and reopening.",
 "The tests delete one call in one graph shape.",
 [ST, SU, CF], [("drop_calls", ST + ": drop_calls"), ("dependents closure", SU + ": InMemCallStorage.get_dependents"), ("deletion through frames", CF + ": delete_calls")],
 observe=["creator/consumer queries", "execution counts", "fresh storage on the same file"])

prop("M09", "Cleanup removes exactly the values no call refers to",
 "Cleaning up references removes every stored reference not connected to any saved call and every stored value no remaining reference uses, and nothing else: all calls that remain can still be looked up and all of their inputs and outputs can be read, including values shared with deleted calls and values kept in separate files. "
 "Cleaning up twice, cleaning up a storage without deletions, or cleaning up between any two operations changes no observable result.",
 ["histories"],
 "All bounded histories of calls (with shared contents and collections), deletions and cleanups, with and without value files, in every cache state and after reopening.",
 "The tests do not inspect which values survive a cleanup across shared contents, caches and overflow files.",
 [ST, SU], [("orphans and unreferenced contents", ST + ": cleanup_refs, get_orphans, get_unreferenced_cids"), ("drop from cache and database", SU + ": CachedDictStorage.drop")],
 observe=["readability of every remaining reference", "set of stored values"])

prop("M10", "Keeping large values in separate files changes nothing observable",
 "A storage that moves values above a size threshold to separate files behaves exactly like one that keeps all values in the database: same results, same reuse, same ids, same queries, same effect of clearing, preloading, deleting, cleaning up and reopening. "
 "A value is found wherever it was put at the time it was saved, for every threshold, including values exactly at the threshold.",
 ["histories", "configurations", "inputs"],
 "All bounded histories under every threshold from everything-in-files to nothing-in-files, including a change of threshold between sessions.",
 "The tests use one threshold and one history.",
 [SU, ST], [("overflow on set and fallback on get", SU + ": SQLiteDictStorage"), ("file storage", SU + ": JoblibDictStorage")],
 observe=["results of the same history with and without overflow"])

prop("M11", "Provenance queries return exactly the calls that created or used a value",
 "Outside a context, asking for the creator of references returns exactly the calls having one of them as an output, and asking for consumers exactly the calls having one of them as an input, each once, with the correct function, inputs, outputs and versions, in every session on the database. "
 "References of raw values have no creator. "
 "Transitive dependency and dependent queries return exactly the backward or forward closure.",
 ["programs", "histories"],
 "All bounded programs, all subsets of their references, in every cache state, after deletions and after reopening.",
 "The tests check no query against an independent model of the call graph.",
 [ST, SU], [("creator/consumer queries", ST + ": get_creators, get_consumers, get_ref_creator"), ("closures", SU + ": get_dependencies, get_dependents"), ("batched loading of calls", ST + ": mget_call")],
 observe=["query results against the reference call graph"])

prop("M12", "Contexts and modes nest and unwind correctly, also through exceptions",
 "After a context block ends, normally or by any exception, the mode and the active storage are what they were before it began; once the outermost block has ended, memoized functions behave as plain functions. "
 "Inside a no-op region at any nesting depth calls run the plain function on unwrapped arguments and save nothing, and memoization resumes when the region ends. "
 "All calls that completed inside a block are durable when the outermost block ends, even if it ends by an exception, while the call that raised is not saved.",
 ["histories", "programs", "fault_sequences"],
 "All well-nested sequences of entering and leaving run and no-op blocks, of calls and of exceptions raised at any point (inside functions, between calls, while entering, while leaving), including calls made inside other calls.",
 "The tests contain one nesting; the stack discipline must hold for all nestings and all exception points.",
 [ST, MO], [("mode stack", ST + ": __enter__, __exit__, __call__"), ("no-op manager", ST + ": noop"), ("current context", MO + ": Context, Op.__call__")],
 observe=["mode", "type of call results", "saved calls after each block"])

prop("M13", "Concurrent sessions on one database file never lose or corrupt each other's work",
 "When several sessions use one database file at the same time, under every interleaving of their database transactions each session gets correct results, and when all have ended the database contains exactly the union of the calls they completed, each call once and all its values readable. "
 "A session can also compute a call another session has just saved, without an error and without losing anything else it computed.",
 ["schedules"],
 "All interleavings, up to a bound on preemptions, of two sessions running short programs with overlapping and with different calls, at the granularity of database transactions.",
 "The tests open one session at a time.",
 [ST, SU], [("immediate transactions with retry", SU + ": transaction"), ("commit", ST + ": commit"), ("insertion of calls", SU + ": SQLiteCallStorage.save")],
 observe=["results and errors per session", "final database"])

prop("M14", "Stored values cannot be altered by mutating objects in memory",
 "After a call has returned, changing in place any object passed to it, returned by it, or obtained by unwrapping or attaching a reference never changes what the storage returns for any reference or call, now or in a later session. "
 "Functions receive and return values with the content recorded for them, even when the same object is used as several arguments or returned several times.",
 ["programs", "histories"],
 "All bounded sequences of calls, unwraps, attaches, in-place mutations of every object reachable so far, commits and reopening, on mutable values and collections.",
 "The tests never mutate a value after a call.",
 [ST, MO, SU], [("serialized value cache", ST + ": save_ref, load_ref"), ("attach/unwrap", ST + ": unwrap, attach")],
 observe=["values read back later"])

prop("M15", "Saved values read back equal and content ids separate different contents",
 "Every picklable value that is saved reads back as an equal value of the same type. "
 "Values of equal content, however they were built (insertion order, construction order, sharing of parts, after a round trip through the storage), get one content id, and values that differ, including in type, nesting, order, dtype, shape or labels, get different content ids.",
 ["inputs"],
 "All values of a bounded grammar: scalars, strings, bytes, nested tuples, lists, dictionaries and sets up to a small size, and small arrays and data frames, each built in several ways; all pairs are compared.",
 "The tests hash a few values; injectivity and canonicity are statements about all pairs of values.",
 [UT, MO], [("content hash", UT + ": get_content_hash"), ("serialization", UT + ": serialize, deserialize"), ("wrapping", MO + ": wrap_atom")],
 observe=["ids of equal and different values", "round trip"])

# ------------------------------------------------------------------ versioning
prop("V01", "With versioning on, results of an outdated version are never returned",
 "In a versioned storage, after any history of code edits and user decisions about them, a memoized call returns either what the current code (the function, the functions and methods it calls, and the globals it reads, transitively) computes now, or a result saved for code that differs from it only by edits the user declared to be non-semantic. "
 "A result saved before an edit declared semantic is not returned after it, unless the code it used is restored.",
 ["histories", "programs"],
 "All bounded histories of edits (to the function, to a helper, to a helper's helper, to a method, to a global; back and forth), decisions, calls on several inputs and reopening.",
 "The tests sample random or fixed edit histories; soundness quantifies over all histories of edits, decisions and calls.",
 [VE, DV, SV, DM, CR, DT, ST], [("version lookup by dependencies", VE + ": lookup_call"), ("synchronization with current code", VE + ": sync_codebase, sync_component"), ("dependency tracing", DT + ": DecTracer"), ("versions", DV + ": Version")],
 observe=["returned values against a reference model of code history"])

prop("V02", "With versioning on, unaffected and restored calls are not recomputed",
 "A call is not executed again because of an edit to code it did not use, because of an edit declared non-semantic, or because code was changed and then changed back to a state in which it was computed; in all these cases the saved result is returned. "
 "This holds per call: two calls of one function on different inputs that used different dependencies are invalidated independently.",
 ["histories", "programs"],
 "The same histories as for outdated versions, counting executions against a reference model of which saved results are still valid.",
 "The tests check reuse after single edits only.",
 [VE, DV, SV, ST], [("version lookup", VE + ": lookup_call"), ("content and semantic expansion", DV + ": Version"), ("content-addressed code versions", SV + ": DAG.sync")],
 observe=["execution counts"])

prop("V03", "Recorded dependencies are exactly the code a call used",
 "The dependencies recorded for a call are exactly the tracked functions, methods and globals that ran or were read, transitively, while it executed, each with the code it had then; nothing that ran before, after or in another call is included. "
 "This also holds when functions call each other recursively, raise exceptions that are caught or escape, or call other memoized functions, and tracking is back in its initial state after every call.",
 ["programs", "histories"],
 "All bounded call structures of tracked functions, methods, globals and nested memoized calls, with branches depending on the input and exceptions at any point.",
 "The tests fix a few call structures and never raise inside tracked code.",
 [DT, VE, DM, ST], [("call-stack tracer", DT + ": DecTracer"), ("suspension across nested memoized calls", ST + ": call_internal"), ("trace processing", VE + ": process_trace")],
 observe=["dependencies of the saved version", "tracer state after the call", "invalidation behaviour"])

prop("V04", "The version history of a piece of code is a faithful, content-addressed tree",
 "After any sequence of committing, declaring changes semantic or not, and switching, each piece of code that was ever seen has exactly one version node from which its exact text can be recovered, and the current version is the one matching the current text. "
 "Two versions are interchangeable exactly when they are connected by changes declared non-semantic, and a text seen before is recognized without asking again.",
 ["histories"],
 "All bounded sequences of texts and decisions, from the empty history, compared with a reference tree.",
 "The tests follow single fixed histories.",
 [SV, VE], [("content-addressed DAG", SV + ": DAG, ContentAddressedDAG"), ("semantic hash", SV)],
 observe=["recovered texts", "head", "equivalence classes of versions", "questions asked"])

prop("V05", "Versioned state survives sessions, failures and version deletion intact",
 "What a versioned storage knows about code versions and calls is the same after reopening it, after a block that ended by an exception, and after an interrupted or refused synchronization, as in an uninterrupted session. "
 "Deleting a version removes exactly the calls of that version and the calls depending on them and lets that version be computed again; other versions stay usable.",
 ["histories", "crash_points"],
 "All bounded histories of edits, calls, exceptions, aborted decisions, version deletions and reopening.",
 "The tests delete no versions in combination with further calls and never abort a synchronization.",
 [ST, VE], [("saving the versioner with the calls", ST + ": commit, save_versioner"), ("drop_version", ST + ": drop_version"), ("semantic version removal", VE + ": drop_semantic_version")],
 observe=["later calls and queries"])

# --------------------------------------------------------- computation frames
prop("C01", "Every sequence of frame operations yields a consistent frame",
 "After any sequence of operations on computation frames the result is internally consistent: function nodes contain only calls of one function, links in both directions, memberships, and creator and consumer information agree with each other and with the recorded calls, no link leads to something absent, and no variable and function share a name. "
 "Unless elements were selected by their values or by what can be reached from them, every input and output of a call that a link stands for is in the variable at the other end of the link. "
 "An operation that returns a new frame never changes the frames it was applied to, in-place and copying forms of an operation give the same frame, and dropping, renaming, merging, copying, cleaning up and selecting nodes change nothing else than they say. The printed graph of a frame is its graph.",
 ["histories", "programs"],
 "All sequences, up to a bound, of creating, expanding, selecting, combining, renaming, merging, dropping and simplifying operations on frames over bounded call graphs.",
 "The tests apply single operations to a few frames.",
 [CF], [("consistency check", CF + ": _check"), ("copying", CF + ": copy"), ("all mutators", CF)],
 observe=["an independent consistency check of every frame reached, against the storage"])

prop("C02", "Frame union, intersection, difference and selection are set operations",
 "The union of frames has exactly the nodes, elements and links of both, node by node, and is refused when that would not be a consistent frame. The intersection has exactly the nodes and links in both, with the elements that both have there. "
 "The difference has only elements that the first frame has in a node and the second does not have there, keeps among these all with which nothing is connected (as what led to it, or beside it as an output of the same call) that was removed, and has the links of the first frame between the nodes that are left. "
 "Selecting nodes keeps exactly these nodes, their elements and the links between them. The frames combined do not change.",
 ["inputs", "programs"],
 "All pairs of frames reachable by bounded sequences of operations over bounded call graphs, and all choices of nodes.",
 "The tests check one or two combinations.",
 [CF], [("set operations", CF + ": union, intersection, difference"), ("selection", CF + ": select_nodes, __getitem__")],
 observe=["elements and links of the results"])

prop("C03", "Expanding a frame reaches exactly the full computation",
 "Expansion of a frame (that no selection of elements has cut) goes backward from its references whose creating call is not connected with them in the frame, and forward from those with which no using call is connected. One step adds exactly the calls that created (used) these, with all their inputs (outputs); a recursive expansion goes on with the references it added, and adds exactly the calls that transitively led to them (used them); "
 "expanding in all directions goes on until neither direction adds anything. For frames made from references this is everything that led to them, or everything that uses them. What the frame had stays, the calls added are linked with the variables of all their inputs and outputs, elements of lists included, and expanding in the same way again changes nothing. "
 "This holds regardless of shared sub-computations, repeated functions, collections, repeated references or the order of expansion.",
 ["programs", "histories"],
 "All expansions, with all options, of the frames reachable by bounded sequences of operations over bounded call graphs.",
 "The tests expand a few fixed graphs.",
 [CF, SU], [("expansion", CF + ": expand_back, expand_forward, expand_all"), ("creator/consumer queries", SU)],
 observe=["calls and references of the expanded frame against the reference closure"])

prop("C04", "Frame tables and values show exactly the recorded computations",
 "The table of a frame has, for every reference in a variable with unused references that is not used in the frame, and for every call of a function without outputs, rows with the complete history of it in the frame (everything that led to it through the frame's links, whatever the size of the graph and the number of paths). "
 "Every row is exactly the union of such histories that share elements: a row never combines values of different computations that do not, none of these computations is missing, and no row appears twice. Where there are two such variables, computations that agree in all the columns they share appear together. "
 "The table of some nodes consists of their columns in the table of what lies between them, that of a single node of its elements. Restricting to complete rows, leaving out calls, and loading values lazily give the same rows. Values in a table, and values looked up for any set of variables, are the values in the storage.",
 ["programs", "inputs"],
 "All bounded call graphs, frames, and choices of variables and functions.",
 "The tests compare a few tables of linear pipelines.",
 [CF], [("table extraction", CF + ": df, eval, get_joint_history_df"), ("history traversal", CF + ": get_total_history, get_direct_history")],
 observe=["rows of the table against a brute-force join over the recorded calls"])

prop("C05", "Restricting a frame keeps exactly what is connected to the selection",
 "The part of a frame upstream (downstream) of given nodes consists of exactly the elements from which (to which) elements of these nodes can be reached through the frame's links and calls, the part between nodes of these nodes and exactly the elements reachable forward on paths between them, and dropping unreachable elements keeps exactly what can be reached from the frame's sources (or sinks): a call is reached strongly when all inputs (outputs) that the frame links to it are, and weakly when any is. "
 "Selecting values (by a list, by history or content, or by comparison) keeps exactly the matching elements and the calls directly linked with them.",
 ["programs", "inputs"],
 "All choices of nodes, directions and options, and several choices of values, for the frames reachable by bounded sequences of operations over bounded call graphs.",
 "The tests check a few restrictions on linear pipelines.",
 [CF], [("reachability", CF + ": get_reachable_elts, upstream, downstream, midstream, drop_unreachable"), ("selection", CF + ": isin, select_subsets, __lt__")],
 observe=["elements of the restricted frame against graph reachability"])

prop("C06", "Graph algorithms are correct on every graph",
 "Ordering of nodes is topological between strongly connected components and lists each node once, the components found are exactly the strongly connected ones, and the links reported between two nodes are exactly those on simple paths from one to the other, for every directed graph, with or without cycles and self-loops.",
 ["inputs"],
 "All labelled directed graphs up to four or five nodes, all pairs of endpoints, and every insertion order of nodes.",
 "The tests run these algorithms only on the few graphs their frames happen to have.",
 [UT, CF], [("components and topological order", UT + ": find_strongly_connected_components, topological_sort, almost_topological_sort"), ("paths", UT + ": get_edges_in_paths")],
 observe=["outputs against brute-force definitions"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
