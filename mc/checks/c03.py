"""C03: expansions add the calls that made or used the references, and no others."""
from ..framecheck import *

LEVEL = "model_checking"
BOUNDS = ("every expansion (directions, options, choices of one or two variables) of every frame that at most one operation (thorough: two) leads to "
          "from ways to make a frame, over graphs of calls with up to 9 references; not of frames that a selection of elements has cut")


def first(g, p, a, lev, d):
    yield from structure(a, lev, d)
    yield from expansion(a, lev, d, more=3)
    yield from setops(p)


def last(g, p, a, lev, d):
    yield from expansion(a, lev, d, more=3)


def last_more(g, p, a, lev, d):
    yield from expansion(a, lev, d, more=8)


def most(g, p, a, lev, d):
    if d <= 1:
        yield from structure(a, lev, d)
        yield from setops(p)
    yield from expansion(a, lev, d, more=7 * (d > 1))


EXP = {"back", "forward", "all"}


def full(r, ra, o, g, what):
    """once more changes nothing"""
    r2 = perform(r, o, {})
    check(view(r2) == ra, lambda: f"{what}: once more gives {view(r2).show(g)} instead of {ra.show(g)}", f"not idempotent {o[0]}")


def two(item):
    return batch(item, first, last, EXP, after)


def two_more(item):
    return batch(item, first, last_more, EXP, after)


def three(item):
    return explore(item, most, 3, EXP, EXP, after=after)


def after(o, r, ra, g, what):
    if o == ("all",) or o[0] in EXP and o[1] is None and o[2]:
        full(r, ra, o, g, what)


PARTS = {"expansions": two, "more expansions": two_more, "longer sequences": three}


def run(ctx):
    for pn in ctx.pick(["coll", "dup", "keys", "late", "lin", "list", "dict", "fan"], list(PROGS)):
        its = list(parts(ctx.quick, [pn], 2, first))
        ctx.enumerate(*ctx.pick(("expansions", two), ("more expansions", two_more)), its, chunksize=1, what=f"every expansion of {its[-1][3]} frames over the graph {pn}")
    if not ctx.quick:
        ctx.enumerate("longer sequences", three, items(most, ["lin", "dup", "coll", "late"], few=True), chunksize=1, what="a way to make a frame, two operations, then every expansion")
