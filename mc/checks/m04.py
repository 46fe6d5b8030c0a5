"""M04: memoized collections. All small collection types and values, passed and returned in
every way, followed element by element through their structural calls, in this and in later sessions."""
import itertools
from typing import Any, Tuple
from ..core import Violation
from ..world import check
from ..store import StoreWorld, O, wrap_atom, Ref
from ..model import S, atom
from mandala.imports import op, MList, MDict

LEVEL = "model_checking"
BOUNDS = "all types of the list up to nesting depth 2, all values with up to 2 (thorough: 3) elements per level over 2 atoms; lists and dictionaries of all lengths up to 13 with one value each"

A, L, D = "a", lambda t: ("l", t), lambda t: ("d", t)
TYPES = {"L": L(A), "D": D(A), "LL": L(L(A)), "LD": L(D(A)), "DL": D(L(A)), "DD": D(D(A))}
ANN = {"L": MList[int], "D": MDict[str, int], "LL": MList[MList[int]], "LD": MList[MDict[str, int]],
       "DL": MDict[str, MList[int]], "DD": MDict[str, MDict[str, int]]}
SEEN = []
KEYS = ("q", "p", "dict", "*dict")


def values(tp, size, keys, atoms=(0, 1)):
    if tp == "a":
        yield from atoms
        return
    inner = list(values(tp[1], min(size, 2) if tp[1] == "a" else size, keys, atoms))
    for n in range(size + 1):
        for c in itertools.product(inner, repeat=n):
            if tp[0] == "l":
                yield list(c)
            else:
                for ks in itertools.permutations(keys, n):
                    yield dict(zip(ks, c))


def deep(v):
    return [deep(x) for x in v] if isinstance(v, list) else {k: deep(x) for k, x in v.items()} if isinstance(v, dict) else v


def register(tname):
    tp, ann = TYPES[tname], ANN[tname]

    def take(x):                       # a collection as input, its size as output
        O.COUNTS[f"take{tname}"] += 1
        SEEN.append(x)
        return len(x)
    take.__annotations__ = {"x": ann}

    def give(x, e):                    # a collection in, another one out
        O.COUNTS[f"give{tname}"] += 1
        SEEN.append(x)
        return out(tname, deep(x), e)
    give.__annotations__ = {"x": ann, "return": ann}

    def pair(x):                       # several outputs
        O.COUNTS[f"pair{tname}"] += 1
        SEEN.append(x)
        return deep(x), len(x)
    pair.__annotations__ = {"x": ann, "return": Tuple[ann, int]}

    def both(x):                       # several collections
        O.COUNTS[f"both{tname}"] += 1
        SEEN.append(x)
        return deep(x), out(tname, deep(x), 0)
    both.__annotations__ = {"x": ann, "return": Tuple[ann, ...]}

    def last(x):                       # the collection is not the first of them
        O.COUNTS[f"last{tname}"] += 1
        SEEN.append(x)
        return len(x), deep(x)
    last.__annotations__ = {"x": ann, "return": tuple[int, ann]}

    def make(v):                       # from an ordinary value
        O.COUNTS[f"make{tname}"] += 1
        return deep(v)
    make.__annotations__ = {"return": ann}
    for f, ps, tps, onames, otps, plain in (
            (take, ["x"], {"x": tp}, ["output_0"], [A], lambda x: len(x)),
            (give, ["x", "e"], {"x": tp, "e": A}, ["output_0"], [tp], lambda x, e: out(tname, deep(x), e)),
            (pair, ["x"], {"x": tp}, ["output_0", "output_1"], [tp, A], lambda x: (deep(x), len(x))),
            (both, ["x"], {"x": tp}, ["output_0", "output_1"], [tp, tp], lambda x: (deep(x), out(tname, deep(x), 0))),
            (last, ["x"], {"x": tp}, ["first", "second"], [A, tp], lambda x: (len(x), deep(x))),
            (make, ["v"], {"v": A}, ["output_0"], [tp], lambda v: deep(v))):
        f.__name__ = f.__qualname__ = f.__name__ + tname
        O.TABLE[f.__name__] = ((op(output_names=onames, nout=2) if f is last else op)(f), plain, ps, {}, tps, onames, otps)


def out(tname, x, e):
    """a result sharing elements with the input"""
    if isinstance(x, list):
        return x + x[:1] if e else x[::-1]
    if e and x:
        x["z"] = deep(next(iter(x.values())))
    return dict(reversed(list(x.items())))


def el(x):
    O.COUNTS["el"] += 1
    SEEN.append(x)
    return [x]


O.TABLE["el"] = (op(el), lambda x: [x], ["x"], {}, {"x": A}, ["output_0"], [A])
for _t in TYPES:
    register(_t)


class CollWorld(StoreWorld):
    """raw and actual arguments are built here directly, so arg() takes them as they are"""

    def arg(self, a):
        return a if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], (S, list, dict)) else (a, a)

    def go(self, name, *args):
        del SEEN[:]
        before = O.COUNTS[name]
        self.ev_call(name, *args)
        if O.COUNTS[name] > before and name[:4] in ("take", "give", "pair", "both", "last", "el"):
            m = self.arg(args[0])[0]
            v = m.val if isinstance(m, S) else plain(m)
            check(len(SEEN) == 1 and same(SEEN[0], v),
                  lambda: f"{name} received {SEEN[0]!r} instead of {v!r}", "received")
        return self.results[0] if len(O.TABLE[name][5]) == 1 else self.results[:2]


def plain(m):
    return m.val if isinstance(m, S) else [plain(x) for x in m] if isinstance(m, list) else \
        {k: plain(x) for k, x in m.items()} if isinstance(m, dict) else m


def same(x, y):
    if type(x) is not type(y):
        return False
    if isinstance(x, list):
        return len(x) == len(y) and all(map(same, x, y))
    if isinstance(x, dict):
        return set(x) == set(y) and all(same(x[k], y[k]) for k in x)
    return x == y


def mixes(tp, v, w, memo):
    """the value with every combination of its parts replaced by references to equal values:
    yields (model argument, actual argument)"""
    if tp == "a":
        yield v, v
        yield memo("a", v)
        return
    if tp[0] == "l":
        parts = [list(mixes(tp[1], x, w, memo)) for x in v]
        for c in itertools.product(*parts):
            yield [m for m, _ in c], [a for _, a in c]
    else:
        parts = [[(k, m, a) for m, a in mixes(tp[1], x, w, memo)] for k, x in v.items()]
        for c in itertools.product(*parts):
            yield {k: m for k, m, _ in c}, {k: a for k, _, a in c}
    if v:
        yield memo(tp, v)


def case(item):
    tname, v, file, limit, deepq = item
    tp = TYPES[tname]
    w = CollWorld(dict(file=file, deep=True, discover=True))
    try:
        refs = {}

        def memo(t, x):
            """a reference with a history, to this value"""
            key = (repr(t), repr(x))
            if key not in refs:
                if t == "a":
                    refs[key] = w.go("inc", (x + 2) % 3)
                    assert refs[key][0].val == x
                else:
                    n = next(k for k in TYPES if TYPES[k] == t)
                    refs[key] = w.go("make" + n, ("ordinary", x)[1])
            return refs[key]
        w.enter()
        made = w.go("make" + tname, v)
        n = 0
        for m, a in itertools.islice(mixes(tp, v, w, memo), limit):
            w.go("take" + tname, (m, a))
            w.go("give" + tname, (m, a), n % 2)
            n += 1
        w.go("pair" + tname, made)
        w.go("both" + tname, made)
        w.go("last" + tname, made)
        # elements of a returned collection are arguments like others
        s, act = made
        its = list(zip(s.items, act.obj)) if s.kind == "l" else [(s.items[k], act.obj[k]) for k in s.items]
        for se, ae in its[:3]:
            if se.kind == "a":
                w.go("el", (se, ae))
                r = w.results[0][0]
                w.go("el", se.val)                       # equal content: no second run (checked by ev_call)
            else:
                t = next(k for k in TYPES if TYPES[k] == tp[1])
                w.go("take" + t, (se, ae))
        w.p["deep"] = deepq == 2
        w.full_check()
        # again in a later session: everything is answered, identities agree
        w.results = []
        w.enter()
        made = w.go("make" + tname, v)
        w.go("give" + tname, made, 0)
        w.go("give" + tname, made, 1)
        back = w.results[0]
        w.go("take" + tname, back)
        w.go("take" + tname, v)
        w.go("pair" + tname, back)
        w.go("both" + tname, back)
        w.go("last" + tname, back)
        w.p["deep"] = deepq >= 1
        w.full_check()
        # structural calls of the returned collection connect it with its elements both ways
        s, act = made
        r = w.st.load_ref(w.hids.f[s.hid])
        check(same(w.st.unwrap(r), v), lambda: f"read back {w.st.unwrap(r)!r} instead of {v!r}", "read back")
        return {"outcome": sorted(map(repr, w.cids.f)), "steps": len(w.callhids.f) + n}
    finally:
        w.close()


PARTS = {"collections": case, "long": case}


def run(ctx):
    items = []
    for tname, tp in TYPES.items():
        size = ctx.pick(2, 3) if len(tname) == 1 else 2
        keys = KEYS[:2] if len(tname) > 1 and ctx.quick else KEYS[:3] if size > 2 else KEYS
        for i, v in enumerate(values(tp, size, keys)):
            if len(tname) > 1 and ctx.quick and i % (3 if tname == "LL" else 11) and len(v) > 1:
                continue
            items.append((tname, v, bool(i % 2), ctx.pick(8, 60), ctx.pick(int(i % 4 == 1 or len(v) < 2), 2)))
    ctx.enumerate("collections", case, items, chunksize=2)
    # more elements than have one digit
    items = []
    for n in range(3, 14) if not ctx.quick else (3, 10, 11, 12):
        xs = [(i * i + i // 3) % 3 for i in range(n)]
        ks = {f"k{i}": x for i, x in enumerate(xs)}
        items += [("L", xs, bool(n % 2), 3, 0), ("D", ks, bool(n % 2), 3, 0), ("LL", [[x] for x in xs], True, 3, 0),
                  ("DL", {"p": xs}, True, 3, 0), ("LD", [ks], True, 3, 0)]
    if not ctx.quick:
        items += [("L", [(i * i + i // 3) % 3 for i in range(n)], True, 2, 0) for n in (101, 120)]
    ctx.enumerate("long", case, items, chunksize=1)
