"""writes MANIFEST.json: a check per module in mc/checks"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEARCH = "explicit-state search of the real implementation (all event histories to a depth, states merged) against a reference model"
ENUM = "exhaustive enumeration of a bounded space of executions of the real code against a reference model"
T = {
 "M01": (SEARCH, "model_checking", "all histories of calls and session events on several alphabets; values, execution counts, identities and the content of a fresh session are compared with a symbolic model after every event"),
 "M02": (ENUM, "model_checking", "all small programs, each run in several fresh processes with different hash seeds, orders and storage configurations; identities must agree and be injective on symbolic identities"),
 "M03": (ENUM, "model_checking", "all signatures over a grammar of parameter kinds, all ways to pass each argument; the values a body receives and call identity are compared with Python's own binding"),
 "M04": (ENUM, "model_checking", "all collection types to a nesting depth, all values to a size, all ways to pass them (raw, references at any depth), read back in this and a fresh session and followed through their structural calls"),
 "M05": ("enumeration of all crash points (each SQL statement, commit and file write, whole and torn) of bounded histories on the real code, with recovery checked against the acknowledged model", "fault_enumeration", "directory snapshots at every step are reopened by a fresh storage"),
 "M06": ("enumeration of all fault points (every SQL statement, commit, file write, serialization) in bounded histories on the real code, single and double faults", "fault_enumeration", "after the error is gone, what was computed must still be savable exactly once"),
 "M07": (SEARCH, "model_checking", "all histories of cache operations around calls; every result, query and fresh session is compared with a cache-free model"),
 "M08": (SEARCH, "model_checking", "all histories of deletions (every call, forms of argument, with and without dependents) and re-execution"),
 "M09": (SEARCH, "model_checking", "all histories of deletions, cleanups and calls; stored references and values must be exactly those reachable from the model's calls"),
 "M10": (SEARCH, "model_checking", "all histories of saving and loading values around the overflow threshold, threshold changes and reopening"),
 "M11": (SEARCH, "model_checking", "all bounded programs; creators, consumers and closures of all small sets of references and calls against the model's graph"),
 "M12": (ENUM, "model_checking", "all well-nested programs of run and no-op blocks, calls, nested calls and exceptions at every point, against an interpreter of the intended semantics"),
 "M13": ("exhaustive exploration of all interleavings of database transactions of concurrent sessions under a controlled scheduler, up to a preemption bound", "model_checking", "real storages in threads with baton passing; outcome of every schedule compared with the union of the sessions' calls"),
 "M14": (SEARCH, "model_checking", "all histories of calls, loads and in-place mutations of every object reachable by the user"),
 "M15": (ENUM, "model_checking", "all values of a bounded grammar, all pairs compared"),
 "V01": (SEARCH, "model_checking", "all histories of code edits, decisions and calls against a model of code history"),
 "V02": (SEARCH, "model_checking", "as V01, counting executions"),
 "V03": (ENUM, "model_checking", "all bounded call structures of tracked code"),
 "V04": (SEARCH, "model_checking", "all sequences of texts and decisions against a reference tree"),
 "V05": (SEARCH, "model_checking", "all histories of edits, calls, failures, version deletions and reopening"),
 "C01": (SEARCH, "model_checking", "all sequences of frame operations to a depth over many call graphs; every frame reached is checked by an independent checker"),
 "C02": (ENUM, "model_checking", "all pairs and triples of frames reached by bounded operation sequences"),
 "C03": (ENUM, "model_checking", "all bounded call graphs and starting points, all directions, against graph closures"),
 "C04": (ENUM, "model_checking", "all bounded call graphs and variable choices, against brute-force joins"),
 "C05": (ENUM, "model_checking", "all bounded call graphs, all node and value selections, against reachability"),
 "C06": (ENUM, "model_checking", "all labelled digraphs up to a size, all insertion orders and endpoints, against brute-force definitions"),
}
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    if os.path.exists(os.path.join(HERE, "mc", "checks", p.lower() + ".py")):
        t, l, n = T[p]
        m["checks"].append({"property": p, "quick_cmd": f"bash run.sh {p} quick", "thorough_cmd": f"bash run.sh {p} thorough",
                            "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "the check for this property is not built yet")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", [x["property"] for x in m["not_applicable"]])
