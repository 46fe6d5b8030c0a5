"""C04: tables of frames contain the recorded computations, and nothing else."""
from ..framecheck import *
from ..frames import spec, source_elts, connected
from mandala.model import Ref, AtomRef, Call, RefCollection, CallCollection, ValueCollection

LEVEL = "model_checking"
BOUNDS = ("tables of all nodes and of every choice of one or two (thorough: three) nodes of every frame that at most one operation leads to from ways to make a frame, "
          "over graphs of calls with up to 9 references")


def first(g, p, a, lev, d):
    yield from structure(a, lev, d)
    yield from expansion(a, lev, d)
    yield from selection(g, a, lev, d)
    yield from setops(p)


def histories(b, g):
    """what led to each reference in a variable with final ones, and to each call of a function without
    outputs, through the links of the frame: {(node, element): {node: elements}}"""
    memo = {}
    into = {n: [e for e in b.edges if e[1] == n] for n in b.sets}

    def hist(n, x):
        if (n, x) not in memo:
            res = {n: {x}}
            for e in into[n]:
                for y in connected(b, e, g, x, False):
                    for m, ys in hist(e[0], y).items():
                        res.setdefault(m, set()).update(ys)
            memo[n, x] = res
        return memo[n, x]
    last = source_elts(b, g, False)
    return {(v, x): hist(v, x) for v in b.sets for x in b.sets[v] if (last[v] if v in b.vs else not any(e[0] == v for e in b.edges))}


def missing(x):
    return x is None or isinstance(x, float) and x != x


def cell(x, what):
    if missing(x):
        return None
    if isinstance(x, (Ref, Call)):
        return frozenset([x.hid])
    if isinstance(x, RefCollection):
        return frozenset(r.hid for r in x.refs)
    if isinstance(x, CallCollection):
        return frozenset(r.hid for r in x.calls)
    check(False, f"{what}: a cell contains {x!r}", "cell")


def rows(df, what):
    check(len(set(df.columns)) == len(df.columns), f"{what}: columns {list(df.columns)}", "columns")
    return [{c: cell(x, what) for c, x in zip(df.columns, r)} for r in df.itertuples(index=False, name=None)]


def key(row):
    return tuple(sorted((c, tuple(sorted(x))) for c, x in row.items() if x))


def show(row, g):
    return {c: sorted(g.calls[h][0] if h in g.calls else str(g.val[h]) for h in x) for c, x in row.items() if x}


def joint(b, g, rs, what):
    """rows of the table of a whole frame, against the histories of its final references"""
    hs = histories(b, g)
    found = {}
    for row in rs:
        mine = [(v, x) for (v, x), h in hs.items() if all(row.get(n) == ys for n, ys in h.items())]
        cover = {n for m in mine for n in hs[m]}
        check(cover == {n for n, x in row.items() if x}, lambda: f"{what}: the row {show(row, g)} is not what led to {sorted(v for v, _ in mine)} in it", "row mixes")
        # what is in one row belongs together
        done, todo = {mine[0]}, [mine[0]]
        while todo:
            h = hs[todo.pop()]
            for m in mine:
                if m not in done and set(h) & set(hs[m]):
                    done.add(m)
                    todo.append(m)
        check(done == set(mine), lambda: f"{what}: the row {show(row, g)} pairs {sorted(v for v, _ in done)} with {sorted(v for v, _ in set(mine) - done)}, which have nothing in common", "row of unrelated")
        for m in mine:
            found.setdefault(m, []).append(row)
    for v, x in hs:
        check((v, x) in found, lambda: f"{what}: {show({v: {x}}, g)} is in no row", "row missing")
    ks = [key(r) for r in rs]
    check(len(set(ks)) == len(ks), lambda: f"{what}: a row occurs twice", "row twice")
    vs = {v for v, _ in hs}
    if len(vs) == 2:
        for (v, x), h in hs.items():
            for (w, y), k in hs.items():
                cols = [set(n for (u, z), q in hs.items() if u == t for n in q) for t in (v, w)]
                if v < w and cols[0] & cols[1] and all(n in h and n in k and h[n] == k[n] for n in cols[0] & cols[1]):
                    check(any(r in found[w, y] for r in found[v, x]), lambda: f"{what}: {show({v: {x}}, g)} and {show({w: {y}}, g)} belong together, but are in no row together", "rows apart")


def same_objs(cf, g, refs, objs, what):
    check(list(refs.columns) == list(objs.columns), f"{what}: columns of values {list(objs.columns)}, of references {list(refs.columns)}", "value columns")

    def val(x):
        if missing(x):
            return "None"
        if isinstance(x, Ref):
            return num(g.val[x.hid])
        if isinstance(x, RefCollection):
            return repr([g.val[r.hid] for r in sorted(x.refs, key=lambda r: r.hid)])
        if isinstance(x, CallCollection):
            return repr([c.hid for c in x.calls])
        return x.hid

    def num(x):
        return repr(float(x)) if isinstance(x, int) else repr(x)

    def obj(x):
        if missing(x):
            return "None"
        if isinstance(x, Call):
            return x.hid
        if isinstance(x, ValueCollection):
            return repr(x.values)
        if isinstance(x, CallCollection):
            return repr([c.hid for c in x.calls])
        check(not isinstance(x, (Ref, RefCollection)), f"{what}: a reference among the values", "value is reference")
        import numpy
        return num(x.item() if isinstance(x, numpy.generic) else x)
    want = sorted(tuple(map(val, r)) for r in refs.itertuples(index=False, name=None))
    got = sorted(tuple(map(obj, r)) for r in objs.itertuples(index=False, name=None))
    check(want == got, lambda: f"{what}: the values are {got} instead of {want}", "values")


def options(cf, a, g, df, rs, hs, what):
    """the same table, otherwise"""
    inner = rows(cf.df(values="refs", join_how="inner"), what)
    check({key(r) for r in inner} <= {key(r) for r in rs}, f"{what}: an inner join has other rows", "inner join rows")
    check(all(r.get(v) for r in inner for v, _ in hs), f"{what}: an inner join has incomplete rows", "inner join incomplete")
    for values in ("refs", "objs"):
        no = cf.df(values=values, include_calls=False)
        check(list(no.columns) == [c for c in df.columns if c in a.vs] and len(no) == len(df), f"{what}: without calls, the columns are {list(no.columns)}, the number of rows {len(no)} instead of {len(df)}", "without calls")
        if values == "refs":
            check(sorted(map(key, rows(no, what))) == sorted(key({c: x for c, x in r.items() if c in a.vs}) for r in rs), f"{what}: other rows without calls", "without calls")
    for v in sorted(a.vs)[:2]:
        lazy = cf.df(lazy_vars=[v])
        check(list(lazy.columns) == list(df.columns), f"{what}: with {v} left lazy, columns {list(lazy.columns)}", "lazy columns")
        for c in lazy.columns:
            isref = [isinstance(x, (Ref, RefCollection)) for x in lazy[c] if not missing(x)]
            check(all(isref) if c == v else not any(isref), f"{what}: with {v} left lazy, {c} contains {list(lazy[c])!r}", "lazy values")
    ev = cf.eval(verbose=False)
    check(list(ev.columns) == list(df.columns) and len(ev) == len(df), f"{what}: eval gives another table", "eval")


def order(a, df, what):
    """columns in topological order, where there is one"""
    pos = {c: i for i, c in enumerate(df.columns)}
    from ..frames import nodes_reach
    for x in pos:
        for y in pos:
            if x != y and y in nodes_reach(a, [x], True) and x not in nodes_reach(a, [y], True):
                check(pos[x] < pos[y], f"{what}: columns {list(df.columns)}", "column order")


def detached(r):
    """the same reference, without values"""
    if isinstance(r, AtomRef):
        return r.detached()
    return r.attached(obj={k: detached(x) for k, x in r.obj.items()} if isinstance(r.obj, dict) else [detached(x) for x in r.obj])


def tables(item, most=2):
    pn, few, i, j = item
    fs = load_frames(pn, few, first)
    g = graph(pn)
    n, out = 0, set()
    for h, cf, a, lev in fs[i:j]:
        before = deepview(cf)
        ns = sorted(a.sets)
        picks = [()] + [x for k in range(1, most + 1) for x in itertools.combinations(ns, k)]
        if len(ns) > 12:
            picks = picks[:80]
        for x in picks:
            rearm()
            n += 1
            what = f"{h}: df{x} of {a.show(g)}"
            df = cf.df(*x, values="refs")
            rs = rows(df, what)
            out.add(digest(sorted(map(key, rs))))
            if len(x) == 1:
                check(sorted(map(key, rs)) == sorted(key({x[0]: {y}}) for y in a.sets[x[0]]) , lambda: f"{what}: gave {[show(r, g) for r in rs]}", "one node")
            else:
                b = spec(a, ("mid", x or tuple(ns), "strong"), g, {})[0]
                if not x:
                    joint(b, g, rs, what)
                else:       # some columns of the whole table of what is between them
                    whole = rows(cf.midstream(*x).df(values="refs"), what)
                    joint(b, g, whole, what)
                    check(set(df.columns) <= set(x), f"{what}: columns {list(df.columns)}", "columns")
                    proj = [key({c: r.get(c) for c in x}) for r in whole] if len(df.columns) else []
                    check(sorted(proj) == sorted(map(key, rs)), lambda: f"{what}: not the columns of the whole table", "projection")
            order(a, df, what)
            same_objs(cf, g, df, cf.df(*x), what)
        for f in a.fs:
            t = cf.get_func_table(f)
            want = sorted(sorted((k, r) for k, r in {**g.calls[c][1], **g.calls[c][2]}.items() if r in a.refs()) for c in a.fs[f])
            got = sorted(sorted((k, x.hid) for k, x in r.items() if not missing(x)) for r in t.to_dict("records"))
            check(want == got, f"{h}: table of the function {f}", "function table")
        c = cf.copy()
        c.refs = {x: detached(r) for x, r in c.refs.items()}
        c.attach()
        for x, r in c.refs.items():
            check((r.in_memory or not hasattr(r, "in_memory")) and repr(g.st.unwrap(r)) == repr(g.val[x]), lambda: f"{h}: attaching gives {r!r} for {g.val[x]!r}", "attached")
        check(deepview(cf) == before, f"{h}: changed by making a table", "changed")
    return {"steps": n, "states": sorted(out), "outcome": (n, len(out))}


def tables3(item):
    return tables(item, 3)


PARTS = {"tables": tables, "more tables": tables3}


def run(ctx):
    for pn in PROGS:
        its = list(parts(ctx.quick, [pn], 2, first))
        ctx.enumerate(*ctx.pick(("tables", tables), ("more tables", tables3)), its, chunksize=1, what=f"tables of {its[-1][3]} frames over the graph {pn}")
