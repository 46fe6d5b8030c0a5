"""C06: graph algorithms on all small labelled digraphs."""
import itertools
from ..core import Violation
from ..world import check
from ..store import StoreWorld
from mandala import utils as U

LEVEL = "model_checking"
BOUNDS = "all labelled digraphs with up to 4 nodes (thorough: 5), with and without self-loops; node and neighbour orders as stated per part"

NAMES = "badce"


class OSet(set):
    """a set that is iterated in a chosen order"""
    def __init__(self, xs):
        super().__init__(xs)
        self.order = list(xs)

    def __iter__(self):
        return iter(self.order) if len(self.order) == len(self) else super().__iter__()


def graph(n, bits, loops, order, rev):
    nodes = [NAMES[i] for i in range(n)]
    pairs = [(a, b) for a in range(n) for b in range(n) if loops or a != b]
    adj = {x: [] for x in nodes}
    for i, (a, b) in enumerate(pairs):
        if bits >> i & 1:
            adj[nodes[a]].append(nodes[b])
    ns = [nodes[i] for i in order]
    rank = {x: i for i, x in enumerate(ns)}
    return {x: OSet(sorted(adj[x], key=rank.get, reverse=rev)) for x in ns}


def closure(g):
    reach = {x: {x} for x in g}
    for x in g:
        todo = [x]
        while todo:
            for b in g[todo.pop()]:
                if b not in reach[x]:
                    reach[x].add(b)
                    todo.append(b)
    return reach


def simple_edges(g, s, t):
    res = set()

    def go(node, path, edges):
        if node == t:
            res.update(edges)
            return
        for b in g[node]:
            if b not in path:
                go(b, path | {b}, edges + [(node, b)])
    go(s, {s}, [])
    return res


def one(g, paths=True):
    copy = {k: set(v) for k, v in g.items()}
    reach = closure(g)
    comps = {frozenset(b for b in reach[a] if a in reach[b]) for a in g}
    got = U.find_strongly_connected_components(g)
    check(len(got) == len(comps) and {frozenset(c) for c in got} == comps and sum(map(len, got)) == len(g),
          lambda: f"components of {copy}: {got}, expected {comps}", "components")
    order = U.almost_topological_sort(g)
    check(sorted(order) == sorted(g), lambda: f"order of {copy}: {order}", "order nodes")
    pos = {x: i for i, x in enumerate(order)}
    comp = {x: c for c in comps for x in c}
    for a in g:
        for b in reach[a]:
            check(comp[a] == comp[b] or pos[a] < pos[b], lambda: f"order of {copy}: {order}, but {b} is reached from {a}", "order")
    for c in comps:   # members of a component are together
        ps = sorted(pos[x] for x in c)
        check(ps[-1] - ps[0] == len(ps) - 1, lambda: f"order of {copy}: {order} splits component {set(c)}", "order")
    sup = U.create_super_graph(g, got)
    want = {(i, j) for i, c in enumerate(got) for j, d in enumerate(got) if i != j and any(b in copy[a] for a in c for b in d)}
    check({(i, j) for i, js in sup.items() for j in js} == want and set(sup) == set(range(len(got))),
          lambda: f"graph of components of {copy}: {sup}", "component graph")
    if all(len(c) == 1 and next(iter(c)) not in copy[next(iter(c))] for c in comps):
        o = U.topological_sort(g)
        pos = {x: i for i, x in enumerate(o)}
        check(sorted(o) == sorted(g) and all(pos[a] < pos[b] for a in g for b in copy[a]), lambda: f"topological order of {copy}: {o}", "topological")
    n = 0
    if paths:
        for s in g:
            for t in g:
                e = U.get_edges_in_paths(g, s, t)
                w = simple_edges(copy, s, t)
                check(set(e) == w, lambda: f"edges on simple paths {s} -> {t} in {copy}: {sorted(e)}, expected {sorted(w)}",
                      "paths")
                n += len(w)
    check({k: set(v) for k, v in g.items()} == copy, "the graph was changed", "changed")
    return tuple(sorted(map(tuple, map(sorted, comps)))), n


def batch(item):
    n, lo, hi, loops, orders, paths = item
    seen = set()
    steps = 0
    perms = list(itertools.permutations(range(n)))
    perms = perms[:1] + perms[-1:] if orders == "two" else perms[:1] if orders == "one" else perms
    for bits in range(lo, hi):
        for p in perms:
            for rev in (False, True) if orders != "one" else (False,):
                seen.add(one(graph(n, bits, loops, p, rev), paths))
                steps += 1
    return {"outcome": len(seen), "steps": steps, "states": sorted(map(repr, seen))}


def frame(item):
    """the same question asked of a frame with a loop (a function applied to its own result)"""
    from mandala.imports import Storage
    from ..store import O
    w = StoreWorld({})
    try:
        w.ev_call("inc", 0)
        for _ in range(item[1]):
            w.ev_call("inc", ("r", 0))
        w.ev_call("par", ("r", 0))
        w.exit()
        cf = w.st.cf(O.TABLE["par"][0]).expand_back(recursive=True)
        if item[0]:
            cf = cf.merge_vars() if False else cf
        order = cf.topsort_modulo_sccs()
        succ = {x: set(cf.out_neighbors(x)) for x in cf.nodes}
        check(sorted(order) == sorted(cf.nodes), "frame order nodes")
        reach = closure(succ)
        pos = {x: i for i, x in enumerate(order)}
        for a in succ:
            for b in reach[a]:
                check(a in reach[b] or pos[a] < pos[b], f"frame order {order}", "frame order")
        for s in cf.nodes:
            for t in cf.nodes:
                got = {(a, b) for a, b, *_ in cf.get_all_edges_on_paths_between(s, t)}
                check(got == simple_edges(succ, s, t), lambda: f"edges between {s} and {t}: {got}", "frame paths")
        return {"outcome": tuple(order)}
    finally:
        w.close()


PARTS = {"all orders": batch, "loops": batch, "five nodes": batch, "frames": frame}


def ranges(n, total, size, *rest):
    return [(n, lo, min(lo + size, total)) + rest for lo in range(0, total, size)]


def run(ctx):
    items = [(n, 0, 2 ** (n * n), True, "all", True) for n in (1, 2, 3)]
    items += ranges(4, 2 ** 12, 64, False, ctx.pick("two", "all"), True)
    ctx.enumerate("all orders", batch, items, chunksize=1, what="1-3 nodes with self-loops, 4 nodes without, node and neighbour orders")
    if ctx.quick:
        ctx.enumerate("loops", batch, ranges(4, 2 ** 16, 512, True, "one", True), chunksize=1, what="4 nodes with self-loops, one order")
    else:
        ctx.enumerate("loops", batch, ranges(4, 2 ** 16, 512, True, "two", True), chunksize=1, what="4 nodes with self-loops, two orders")
        ctx.enumerate("five nodes", batch, ranges(5, 2 ** 20, 4096, False, "one", True), chunksize=1, what="5 nodes without self-loops")
    ctx.enumerate("frames", frame, [(0, k) for k in range(4)])
