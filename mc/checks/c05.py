"""C05: what is upstream, downstream or between nodes, and what selecting values keeps."""
from ..framecheck import *

LEVEL = "model_checking"
BOUNDS = ("all restrictions (upstream and downstream of one or two nodes, between two or three, strong and weak, unreachable elements, values by value, history and content) "
          "of every frame that at most one operation (thorough: two) leads to from ways to make a frame, over graphs of calls with up to 9 references")


def first(g, p, a, lev, d):
    yield from structure(a, lev, d)
    yield from expansion(a, lev, d)
    yield from selection(g, a, lev, d)
    yield from setops(p)


def last(g, p, a, lev, d):
    yield from selection(g, a, lev, d, more=True)


def most(g, p, a, lev, d):
    if d <= 1:
        yield from structure(a, lev, d)
        yield from expansion(a, lev, d)
        yield from setops(p)
    yield from selection(g, a, lev, d, more=d > 1)


SEL = {"up", "down", "mid", "unreachable", "isin", "lt"}


def two(item):
    return batch(item, first, last, SEL)


def three(item):
    return explore(item, most, 3, SEL, SEL)


PARTS = {"restrictions": two, "longer sequences": three}


def run(ctx):
    for pn in PROGS:
        its = list(parts(ctx.quick, [pn], 4, first))
        ctx.enumerate("restrictions", two, its, chunksize=1, what=f"every restriction of {its[-1][3]} frames over the graph {pn}")
    if not ctx.quick:
        ctx.enumerate("longer sequences", three, items(most, ["lin", "dup", "coll"], few=True), chunksize=1, what="a way to make a frame, two operations, then every restriction")
