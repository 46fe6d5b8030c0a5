"""What the checks of computation frames share: the graphs, the operations, the exploration."""
import copy, itertools
from .core import Violation, rearm, digest
from .world import check
from .frames import Graph, Explorer, starts, make, consistent, view, deepview, check_start, perform, STRONG, LOOSE, A
import mandala.cf

PROGS = {
    "lin": [("inc", 0), ("inc", ("r", 0)), ("sq", ("r", 1))],
    "two": [("two", 0, 1), ("inc", ("r", 0)), ("two", ("r", 2), ("r", 1)), ("sq", 0)],
    "coll": [("mk", 0), ("tot", ("r", 0)), ("inc", ("e", 0, 1)), ("tot", ("L", ("r", 2), 5))],
    # the same reference twice, and an input whose value is an output of another call
    "dup": [("inc", 0), ("two", ("r", 0), ("r", 0)), ("inc", 1), ("sq", ("r", 0))],
    "dict": [("mkd", 1), ("totd", ("r", 0)), ("neg", ("r", 1)), ("zero",), ("neg", ("r", 3))],
    # names of variables that are names of functions
    "names": [("sq", 2), ("neg", ("r", 0)), ("inc", ("r", 1)), ("sq", ("r", 2))],
    # one call used by several, one of them twice
    "fan": [("two", 0, 1), ("inc", ("r", 0)), ("inc", ("r", 1)), ("two", ("r", 2), ("r", 0)), ("two", ("r", 3), ("r", 2))],
    # forward expansion meets the second use of a result before the result
    "late": [("zero",), ("inc", ("r", 0)), ("inc", ("r", 1)), ("two", ("r", 1), 5), ("two", ("r", 2), ("r", 0)), ("sq", ("r", 2))],
    "list": [("inc", 0), ("tot", ("L", ("r", 0), ("r", 0))), ("tot", ("L", ("r", 1), ("r", 0), 3)), ("mk", ("r", 2)), ("inc", ("e", 3, 2))],
    # calls of one function with different arguments
    "keys": [("inc", 0), ("totd", ("D", ("p", ("r", 0)))), ("totd", ("D", ("p", ("r", 0)), ("q", 3))), ("opt", ("r", 1)), ("opt", ("r", 2), 4)],
}


class _Copy:
    """copy.deepcopy of nested dictionaries and sets, faster"""
    def __getattr__(self, k):
        return getattr(copy, k)

    def deepcopy(self, x, memo=None):
        memo = {} if memo is None else memo
        t = type(x)
        if t is str or x is None:
            return x
        if id(x) in memo:
            return memo[id(x)][0]
        if t is set and all(type(y) is str for y in x):
            r = set(x)
        elif t is dict and all(type(y) is str for y in x):
            r = {k: self.deepcopy(v, memo) for k, v in x.items()}
        else:
            return copy.deepcopy(x)
        memo[id(x)] = r, x
        return r


mandala.cf.copy = _Copy()
_graphs, _pools = {}, {}


def graph(name):
    if name not in _graphs:
        if len(_graphs) > 3:
            k = next(iter(_graphs))
            _graphs.pop(k).close()
            _pools.pop(k, None)
        _graphs[name] = Graph(PROGS[name])
    return _graphs[name]


def pool(g, name):
    """frames to combine others with"""
    if name in _pools:
        p, before = _pools[name]
        if {k: deepview(v) for k, v in p.items()} == before:
            return p
    p = _pool(g)
    _pools[name] = p, {k: deepview(v) for k, v in p.items()}
    return p


def _pool(g):
    res = {"all": make(g, ("refs", 0)).expand_all(), "refs": make(g, ("refs",) + tuple(range(len(g.refs))))}
    for s in starts(g):
        if s[0] == "op":
            res["op " + s[1]] = make(g, s)
    return res


def structure(a, lev, d):
    vs, fs = sorted(a.vs), sorted(a.fs)
    ns = vs + fs
    for n in ns:
        yield ("drop_node", n)
        yield ("getitem", n)
    for v in vs:
        yield ("rename", v, "NEW")
        yield ("rename_var", v, "NEW")
        for w in ns:
            yield ("rename_var", v, w)
        for w in vs:
            if v != w:
                yield ("merge_into", v, w)
    for x in itertools.combinations(ns, 2):
        yield ("drop",) + x
        yield ("select",) + x
    for x in itertools.combinations(ns, max(len(ns) - 1, 0)):
        yield ("select",) + x
    yield ("merge_vars",)
    yield ("cleanup",)
    yield ("simplify",)
    for f in fs:
        for c in sorted(a.fs[f])[:2]:
            yield ("drop_call", f, c)


def expansion(a, lev, d, more=0):
    """more: also other options, and pairs of the first so many variables"""
    if lev < STRONG:
        return
    for k in ("back", "forward"):
        yield (k, None, False)
        yield (k, None, True)
        for v in sorted(a.vs)[:12]:
            yield (k, v, False)
        if more and len(a.vs) < 20:
            yield (k, None, True, False)
            yield (k, None, True, True, True)
            for x in itertools.combinations(sorted(a.vs)[:more], 2):
                yield (k, x, False)
    yield ("all",)
    if more and len(a.vs) < 20:
        yield ("all", False)


def selection(g, a, lev, d, more=False):
    vs, fs = sorted(a.vs), sorted(a.fs)
    ns = vs + fs
    for n in ns:
        for h in ("strong", "weak"):
            yield ("up", (n,), h)
            yield ("down", (n,), h)
    for x in itertools.combinations(ns, 2):
        yield ("mid", x, "strong")
        if more:
            yield ("mid", x, "weak")
            for h in ("strong", "weak"):
                yield ("up", x, h)
                yield ("down", x, h)
    if more:
        for x in itertools.combinations(ns, 3):
            yield ("mid", x, "strong")
    for dd in ("forward", "back"):
        yield ("unreachable", dd, "strong")
        if more:
            yield ("unreachable", dd, "weak")
    yield ("isin", "val", (1, 2))
    if more:
        yield ("isin", "val", ())
        yield ("isin", "val", ([0, 1, 0], 5))
        hs = sorted(a.refs())
        for h in hs[:3]:
            yield ("isin", "hid", (h,))
            yield ("isin", "cid", (g.cid[h],))
    if all(isinstance(g.val[h], int) for h in a.refs()):
        yield ("lt", 2)


def setops(pool):
    for p in pool:
        for k in ("or", "ror", "and", "sub", "rsub"):
            yield (k, p)


def explore(item, opsof, depth, exact=None, sound=None, extra=None, after=None):
    """all sequences of operations from a start (whose first is given), up to a depth"""
    pn, start, first = item
    g = graph(pn)
    p = pool(g, pn)

    def ops(cf, a, g, lev, d):
        rearm()
        if d == 0 and first is not None:
            return [first]
        return list(opsof(g, p, a, lev, d))
    ex = Explorer(g, ops, p, exact=exact, sound=sound, extra=extra, after=after)
    return ex.run(start, depth if first is not None else 0)


def items(opsof, names=None, few=False):
    """a start and a first operation"""
    res = []
    for pn in names or PROGS:
        g = graph(pn)
        p = pool(g, pn)
        for s in starts(g, few):
            res.append((pn, s, None))
            try:
                cf = make(g, s)
                a = view(cf)
            except Exception:
                continue
            for o in opsof(g, p, a, STRONG, 0):
                res.append((pn, s, o))
    _pools.clear()
    while _graphs:
        _graphs.popitem()[1].close()
    return res


def frames(pn, few, opsof):
    """the different frames that at most one operation leads to: (history, frame, view, level)"""
    g = graph(pn)
    p = pool(g, pn)
    res = {}
    n = len(g.refs)
    for s in starts(g, few) + [(k, i) for k in ("unfold", "twice") for i in (range(n) if k == "twice" else (n - 1,))]:
        try:
            cf = make(g, s)
            a = view(cf)
        except Exception:
            if s[0] in ("unfold", "twice"):
                raise
            continue
        ex = Explorer(g, None, p, inplace=False, exact=(), sound=())
        todo = [((s,), cf, a, STRONG)]
        for o in [("all",)] if s[0] in ("unfold", "twice") else opsof(g, p, a, STRONG, 0):
            r = ex.step(cf, a, STRONG, (s,), o)
            if r:
                todo.append(((s, o),) + r)
        for h, cf, a, lev in todo:
            k = a.key()
            if k not in res or res[k][3] < lev:
                res[k] = (h, cf, a, lev)
    return list(res.values())


_frames = {}


def load_frames(pn, few, opsof):
    key = pn, few, opsof.__module__, opsof.__name__
    if key not in _frames:
        _frames.clear()
        _frames[key] = frames(pn, few, opsof)
    return _frames[key]


def parts(few, names, size, opsof):
    for pn in names:
        n = len(load_frames(pn, few, opsof))
        for i in range(0, n, size):
            yield pn, few, i, min(n, i + size)


def batch(item, opsof, last, judged, after=None):
    """some of the different frames that one operation leads to, with every operation of `last`"""
    pn, few, i, j = item
    fs = load_frames(pn, few, opsof)
    g = graph(pn)
    p = pool(g, pn)
    n, keys = 0, set()
    for h, cf, a, lev in fs[i:j]:
        ex = Explorer(g, None, p, exact=judged, sound=judged, after=after)
        before = deepview(cf)
        for o in last(g, p, a, lev, 1):
            r = ex.step(cf, a, lev, h, o)
            n += 1
            if r:
                keys.add(digest(r[1].key()))
        check(deepview(cf) == before, f"{h}: changed by a restriction or expansion", "changes its operand")
    return {"steps": n, "states": sorted(keys), "outcome": (n, len(keys))}
