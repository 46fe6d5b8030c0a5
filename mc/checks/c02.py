"""C02: union, intersection, difference and selection of nodes, exactly."""
import functools
from ..framecheck import *
from ..frames import CF

LEVEL = "model_checking"
BOUNDS = ("all pairs of the frames that at most one operation leads to from ways to make a frame (thorough: every way), over graphs of calls with up to 9 references; "
          "unions are judged where the union of the two is consistent, differences where the first is")


def all_but_sets(g, p, a, lev, d):
    yield from structure(a, lev, d)
    yield from expansion(a, lev, d)
    yield from selection(g, a, lev, d)


def pairs(item):
    """one frame with every other"""
    pn, few, i, j = item
    fs = load_frames(pn, few, all_but_sets)
    g = graph(pn)
    n, keys = 0, set()
    for h, cf, a, lev in fs[i:j]:
        before = deepview(cf)
        for h2, cf2, a2, lev2 in fs:
            rearm()
            before2 = deepview(cf2)
            ex = Explorer(g, None, {"other": cf2}, inplace=False)
            ex.levels = {"other": lev2}
            ex.poolviews = {"other": before2}
            for k in ("or", "and", "sub"):
                r = ex.step(cf, a, lev, h + (("and", h2),), (k, "other"))
                n += 1
                if r:
                    keys.add(digest(r[1].key()))
        check(deepview(cf) == before, f"{h}: changed when combined with others", "changes its operand")
    return {"steps": n, "states": sorted(keys), "outcome": len(keys)}


def select(item):
    """every choice of nodes"""
    pn, few, i, j = item
    fs = load_frames(pn, few, all_but_sets)
    g = graph(pn)
    n, keys = 0, set()
    for h, cf, a, lev in fs[i:j]:
        rearm()
        ns = sorted(a.sets)
        ex = Explorer(g, None, {}, inplace=False)
        for k in range(len(ns) + 1):
            if len(ns) > 9 and 2 < k < len(ns) - 1:
                continue
            for x in itertools.combinations(ns, k):
                r = ex.step(cf, a, lev, h, ("select",) + x)
                keys.add(digest(r[1].key()))
                n += 1
    return {"steps": n, "states": sorted(keys), "outcome": len(keys)}


def several(item):
    """the union and intersection of one frame and up to two others at once"""
    pn, few, i, j = item
    fs = load_frames(pn, few, all_but_sets)
    g = graph(pn)
    p = pool(g, pn)
    n, keys = 0, set()

    def outcome(f):
        try:
            return view(f()).key()
        except AssertionError:
            return "refused"
    for h, cf, a, lev in fs[i:j]:
        rearm()
        before = {k: deepview(v) for k, v in [("", cf), *p.items()]}
        for x in [()] + [(k,) for k in p] + list(itertools.product(p, repeat=2)):
            xs = [p[k] for k in x]
            for name, two in (("union", lambda u, v: u | v), ("intersection", lambda u, v: u & v)):
                want = outcome(lambda: functools.reduce(two, [cf] + xs))
                got = outcome(lambda: getattr(CF, name)(cf, *xs))
                check(got == want or want == "refused", lambda: f"{h}: {name} with {x} is not that of one after the other: {got} instead of {want}", f"{name} of several")
                n += 1
                keys.add(digest(got))
        check({k: deepview(v) for k, v in [("", cf), *p.items()]} == before, f"{h}: changed when combined with others", "changes its operand")
    return {"steps": n, "states": sorted(keys), "outcome": len(keys)}


PARTS = {"several": several, "pairs": pairs, "nodes": select}


def run(ctx):
    for pn in ctx.pick(["lin", "coll", "dup", "names", "dict", "fan"], list(PROGS)):
        its = list(parts(ctx.quick, [pn], 4, all_but_sets))
        ctx.enumerate("pairs", pairs, its, chunksize=1, what=f"all pairs of {its[-1][3]} frames over the graph {pn}: union, intersection, difference")
        ctx.enumerate("several", several, its, chunksize=2, what="the union and intersection of each frame with up to two others at once")
        ctx.enumerate("nodes", select, its, chunksize=4, what=f"all choices of nodes of each of the {its[-1][3]} frames")
