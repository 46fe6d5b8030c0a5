"""C01: every frame that operations lead to is consistent, and operations leave their operands alone."""
from ..framecheck import *

LEVEL = "model_checking"
BOUNDS = ("all sequences of 2 operations (thorough: 3) from ways to make a frame (quick: fewer) over each of 8 graphs of calls with up to 10 references; "
          "expansions, unions and differences only of frames that no selection of elements has cut")


def allops(g, p, a, lev, d):
    yield from structure(a, lev, d)
    yield from expansion(a, lev, d)
    yield from selection(g, a, lev, d)
    yield from setops(p)


STRUCT = {"copy", "drop_node", "drop", "rename", "rename_var", "merge_into", "merge_vars", "cleanup", "simplify", "select", "getitem", "drop_call"}


def two(item):
    return explore(item, allops, 2, STRUCT, None, printed)


def three(item):
    return explore(item, allops, 3, STRUCT, None, printed)


def printed(cf, a, level, g, what):
    """what a frame prints is the frame"""
    s = cf.get_graph_desc()
    repr(cf)
    lone = {v for v in a.vs if not any(v in e[:2] for e in a.edges)}
    lines = s.split("\n") if s else []
    got_lone = set()
    if lone:
        got_lone = set(lines.pop(0).split(", "))
    check(got_lone == lone, lambda: f"{what}: lists the unconnected variables {got_lone} instead of {lone}", "printed variables")
    edges, names = set(), []
    for l in lines:
        lhs, rhs = l.split(" = ")
        f = rhs[:rhs.index("(")]
        names.append(f)
        for part in rhs[rhs.index("(") + 1:-1].split(", "):
            if part:
                lab, vs = part.split("=")
                edges |= {(v, f, lab) for v in vs.split(" | ")}
        for part in lhs.split(", "):
            if part:
                vs, lab = part.split("@")
                edges |= {(f, v, lab) for v in vs.strip("()").split(" | ")}
    check(sorted(names) == sorted(a.fs) and edges == a.edges, lambda: f"{what}: prints {s!r} for {a.show(g)}", "printed graph")
    reported(cf, a, g, what)


_reported = set()


def reported(cf, a, g, what):
    """what a frame tells about its nodes is the frame (once for every frame)"""
    k = str(g.prog), a.key(), tuple(sorted(cf.refs)), tuple(sorted((n, l) for n, d in [*cf.inp.items(), *cf.out.items()] for l in d))
    if k in _reported:
        return
    if len(_reported) > 100000:
        _reported.clear()
    _reported.add(k)
    refs, calls = a.refs(), set().union(*a.fs.values()) if a.fs else set()
    head = " ".join(repr(cf).split("Computational graph:")[0].split())
    want = f"{len(a.vs)} variable(s) ({len(refs)} unique refs) {len(a.fs)} operation(s) ({len(calls)} unique calls)"
    check(want in head, lambda: f"{what}: prints {head!r} instead of {want!r}", "printed counts")
    told = {
        "sources": (set(cf.sources), {v for v in a.vs if not any(e[1] == v for e in a.edges)}),
        "sinks": (set(cf.sinks), {v for v in a.vs if not any(e[0] == v for e in a.edges)}),
        "nodes": (set(cf.nodes), set(a.sets)),
        "edges": (set(cf.edges()), set(a.edges)),
        "values": ({n: {x.hid for x in xs} for n, xs in cf.values.items()}, {n: set(x) for n, x in a.sets.items()}),
        "refs by variable": ({n: {x.hid for x in xs} for n, xs in cf.refs_by_var().items()}, {n: set(x) for n, x in a.vs.items()}),
        "calls by function": ({n: {x.hid for x in xs} for n, xs in cf.calls_by_func().items()}, {n: set(x) for n, x in a.fs.items()}),
        "ops": ({n: o.name for n, o in cf.ops().items()}, {n: g.calls[min(x)][0] for n, x in a.fs.items() if x}),
        "counts of values": ({r["name"]: r["num_values"] for r in cf.get_var_stats().to_dict("records")}, {n: len(x) for n, x in a.vs.items()}),
        "counts of calls": ({r["name"]: r["num_calls"] for r in cf.get_func_stats().to_dict("records")}, {n: len(x) for n, x in a.fs.items()}),
    }
    for n in a.fs:
        rows = cf.get_func_table(n).to_dict("records")
        rows = sorted(tuple(sorted((k, r.hid) for k, r in row.items() if hasattr(r, "hid"))) for row in rows)
        told[f"table of {n}"] = rows, sorted(tuple(sorted((k, r) for k, r in [*g.calls[c][1].items(), *g.calls[c][2].items()] if r in refs)) for c in a.fs[n])
    for n in a.sets:
        told[f"neighbours of {n}"] = (set(cf.in_neighbors(n)), set(cf.out_neighbors(n))), ({e[0] for e in a.edges if e[1] == n}, {e[1] for e in a.edges if e[0] == n})
        told[f"edges of {n}"] = (set(cf.in_edges(n)), set(cf.out_edges(n))), ({e for e in a.edges if e[1] == n}, {e for e in a.edges if e[0] == n})
    for k, (got, want) in told.items():
        check(got == want, lambda: f"{what}: {k}: {got} instead of {want}", f"reported {k.split(' of ')[0]}")


PARTS = {"sequences": two, "longer sequences": three}


def run(ctx):
    ctx.enumerate("sequences", two, items(allops, few=ctx.quick), chunksize=4, what="a way to make a frame, an operation, then every operation")
    if not ctx.quick:
        ctx.enumerate("longer sequences", three, items(allops, ["lin", "dup", "coll"]), chunksize=1, what="a way to make a frame, an operation, then every two operations")
