"""Computation frames: small call graphs on a real storage, what a frame contains, when it
is consistent, and what each operation on it should give. Nothing here uses the code of
frames except to perform the operations."""
import copy, itertools, collections
from .world import check, load
from .core import Violation, rearm
load()
from mandala.imports import Storage, op, MList, MDict, NewArgDefault
from mandala.cf import ComputationFrame as CF
from mandala.model import Call, Ref
from .store import reset_globals


# ---------------------------------------------------------------- functions
@op
def inc(x):
    return (x + 1) % 7


@op(output_names=["s", "d"])
def two(a, b):
    return (a + b) % 7, (a - b) % 7


@op(output_names=["sq"])
def sq(x):          # the output is called like the function
    return x * x % 7


@op(output_names=["x"])
def neg(inc):       # an input is called like another function
    return -inc % 7


@op
def mk(n) -> MList[int]:
    return [n, (n + 1) % 7, n]


@op
def tot(xs: MList[int]):
    return sum(xs) % 7


@op
def mkd(n) -> MDict[str, int]:
    return {"p": n, "q": (n + 1) % 7}


@op
def totd(d: MDict[str, int]):
    return sum(d.values()) % 7


@op
def opt(x, k=NewArgDefault(0)):
    return (x + (k if isinstance(k, int) else 0)) % 7


@op
def zero():
    return 0


OPS = {f.name: f for f in (inc, two, sq, neg, mk, tot, mkd, totd, opt, zero)}


def label(opname, name):
    return "elts" if opname == "__make_list__" and name.startswith("elts_") else name


class Graph:
    """the calls of a storage: facts that frames are compared with"""
    def __init__(self, prog):
        reset_globals()
        self.prog = prog
        self.st = Storage()
        self.refs = []
        with self.st:
            for name, *args in prog:
                r = OPS[name](*[self.arg(a) for a in args])
                self.refs += r if isinstance(r, tuple) else [r]
        df = self.st.call_storage.get_df().reset_index()
        self.calls = {}
        for row in df.itertuples():
            c = self.calls.setdefault(row.call_history_id, (row.op, {}, {}))
            c[1 if row.direction == 'in' else 2][row.name] = row.ref_history_id
        self.creator, self.consumers = {}, collections.defaultdict(set)
        for h, (o, i, u) in self.calls.items():
            for r in u.values():
                self.creator[r] = h
            for r in i.values():
                self.consumers[r].add(h)
        self.allrefs = set(df.ref_history_id)
        self.cid = {r: self.st.load_ref(r).cid for r in self.allrefs}
        self.val = {r: self.st.unwrap(self.st.load_ref(r)) for r in self.allrefs}

    def arg(self, a):
        if isinstance(a, tuple) and a[0] == "r":
            return self.refs[a[1]]
        if isinstance(a, tuple) and a[0] == "e":
            return self.refs[a[1]][a[2]]
        if isinstance(a, tuple) and a[0] == "L":
            return [self.arg(x) for x in a[1:]]
        if isinstance(a, tuple) and a[0] == "D":
            return {k: self.arg(x) for k, x in a[1:]}
        return a

    def close(self):
        self.st.db._conn.close()

    def ins(self, c, l=None):
        o, i, u = self.calls[c]
        return {r for n, r in i.items() if l is None or label(o, n) == l}

    def outs(self, c, l=None):
        o, i, u = self.calls[c]
        return {r for n, r in u.items() if l is None or label(o, n) == l}

    def inl(self, c):
        o, i, u = self.calls[c]
        return {label(o, n) for n in i}

    def outl(self, c):
        o, i, u = self.calls[c]
        return {label(o, n) for n in u}

    def back(self, refs, calls=()):
        """everything that led to these: (references, calls)"""
        refs, calls = set(refs), set(calls)
        todo = list(calls) + [self.creator[r] for r in refs if r in self.creator]
        while todo:
            c = todo.pop()
            calls.add(c)
            for r in self.ins(c):
                if r not in refs:
                    refs.add(r)
                    if r in self.creator and self.creator[r] not in calls:
                        todo.append(self.creator[r])
        return refs, calls

    def forth(self, refs, calls=()):
        refs, calls = set(refs), set(calls)
        todo = list(calls) + [c for r in refs for c in self.consumers.get(r, ())]
        while todo:
            c = todo.pop()
            calls.add(c)
            for r in self.outs(c):
                if r not in refs:
                    refs.add(r)
                    todo += [x for x in self.consumers.get(r, ()) if x not in calls]
        return refs, calls


# ------------------------------------------------------------ abstract frames
class A:
    """nodes with their elements, and edges"""
    def __init__(self, vs, fs, edges):
        self.vs, self.fs, self.edges = vs, fs, frozenset(edges)

    @property
    def sets(self):
        return {**self.vs, **self.fs}

    def key(self):
        return (tuple(sorted((k, tuple(sorted(v))) for k, v in self.vs.items())),
                tuple(sorted((k, tuple(sorted(v))) for k, v in self.fs.items())), tuple(sorted(self.edges)))

    def __eq__(self, o):
        return self.vs == o.vs and self.fs == o.fs and self.edges == o.edges

    def refs(self):
        return frozenset().union(*self.vs.values())

    def calls(self):
        return frozenset().union(*self.fs.values())

    def only(self, nodes):
        return A({k: v for k, v in self.vs.items() if k in nodes}, {k: v for k, v in self.fs.items() if k in nodes},
                 {e for e in self.edges if e[0] in nodes and e[1] in nodes})

    def sub(self, elts):
        return A({k: frozenset(elts.get(k, ())) for k in self.vs}, {k: frozenset(elts.get(k, ())) for k in self.fs}, self.edges)

    def show(self, g=None):
        def n(h):
            if g is None:
                return h[:5]
            return f"{g.calls[h][0]}{h[:3]}" if h in g.calls else f"{g.val[h]}~{h[:3]}" if h in g.val else h[:5]
        return "; ".join(f"{k}={{{', '.join(sorted(map(n, v)))}}}" for k, v in sorted(self.sets.items())) + " | " + \
            ", ".join(f"{a}->{b}@{l}" for a, b, l in sorted(self.edges))


def view(cf):
    edges = {(s, t, l) for s, d in cf.out.items() for l, ts in d.items() for t in ts}
    return A({k: frozenset(v) for k, v in cf.vs.items()}, {k: frozenset(v) for k, v in cf.fs.items()}, edges)


def deepview(cf):
    """everything a frame consists of"""
    f = lambda d: {k: frozenset(v) for k, v in d.items()}
    g = lambda d: {n: {l: frozenset(x) for l, x in e.items()} for n, e in d.items()}
    return (f(cf.vs), f(cf.fs), g(cf.inp), g(cf.out), f(cf.refinv), f(cf.callinv), dict(cf.creator), f(cf.consumers),
            {k: id(v) for k, v in cf.refs.items()}, {k: id(v) for k, v in cf.calls.items()})


STRONG, WEAK, LOOSE = 2, 1, 0


def consistent(cf, g, level, what):
    """independent of cf._check"""
    a = view(cf)
    sets = a.sets

    def ok(c, msg, sig):
        check(c, lambda: f"{what}: {msg() if callable(msg) else msg}; frame: {a.show(g)}", sig)
    ok(not set(a.vs) & set(a.fs), "a variable and a function have one name", "node names")
    ok(set(cf.inp) == set(sets) == set(cf.out), lambda: f"links of {set(cf.inp) ^ set(sets) | set(cf.out) ^ set(sets)}", "link keys")
    inp = {(s, t, l) for t, d in cf.inp.items() for l, ss in d.items() for s in ss}
    ok(inp == a.edges, lambda: f"links in and out differ: {inp ^ a.edges}", "links")
    ok(all((s in a.vs and t in a.fs) or (s in a.fs and t in a.vs) for s, t, l in a.edges), "a link leads to something absent", "dangling link")
    ok(set(cf.refs) == a.refs(), lambda: f"references {[g.val.get(h, h) for h in set(cf.refs) ^ a.refs()]} in refs or in variables only", "references")
    ok(set(cf.calls) == a.calls(), lambda: f"calls {[g.calls[h][0] for h in set(cf.calls) ^ a.calls()]} in calls or in functions only", "calls")
    for h, r in cf.refs.items():
        ok(isinstance(r, Ref) and r.hid == h and (h not in g.cid or g.cid[h] == r.cid), "a reference is another one", "reference identity")
    for h, c in cf.calls.items():
        ok(h in g.calls, "a call that is not in the storage", "unknown call")
        o, i, u = g.calls[h]
        ok(isinstance(c, Call) and c.hid == h and c.op.name == o and {k: r.hid for k, r in c.inputs.items()} == i and {k: r.hid for k, r in c.outputs.items()} == u,
           "a call is another one", "call identity")
    inv = collections.defaultdict(set)
    for k, v in sets.items():
        for h in v:
            inv[h].add(k)
    for mine, theirs, name in ((a.refs(), cf.refinv, "references"), (a.calls(), cf.callinv, "calls")):
        ok(set(theirs) == mine, lambda: f"memberships of {name} are recorded for others", f"membership keys {name}")
        for h in mine:
            ok(set(theirs[h]) == inv[h], lambda: f"memberships of a member of {name}: {set(theirs[h])}, it is in {inv[h]}", f"memberships {name}")
    for h, c in cf.creator.items():
        ok(c in cf.calls and h in g.creator and g.creator[h] == c, "creator information is wrong", "creator wrong")
        ok(h in cf.refs, "creator information of an absent reference", "creator absent")
    for h, cs in cf.consumers.items():
        ok(all(c in cf.calls and h in g.ins(c) for c in cs), "consumer information is wrong", "consumer wrong")
        ok(h in cf.refs or not cs, "consumer information of an absent reference", "consumer absent")
    for f, cs in a.fs.items():
        ok(len({g.calls[c][0] for c in cs}) <= 1, lambda: f"calls of different functions in {f}", "mixed functions")
    for s, t, l in a.edges:
        if t in a.fs:
            for c in a.fs[t]:
                for r in g.ins(c, l) & a.vs[s]:
                    ok(c in cf.consumers.get(r, ()), "a consumer is not recorded", "consumer missing")
        else:
            for c in a.fs[s]:
                for r in g.outs(c, l) & a.vs[t]:
                    ok(cf.creator.get(r) == c, "a creator is not recorded", "creator missing")
    if level == LOOSE:
        return a
    for f, cs in a.fs.items():
        ne = [e for e in a.edges if f in e[:2]]
        for c in cs:
            for lab in {(e[2], e[0] == f) for e in ne}:
                l, outw = lab
                vs = [a.vs[e[1] if outw else e[0]] for e in ne if e[2] == l and (e[0] == f) == outw]
                rs = g.outs(c, l) if outw else g.ins(c, l)
                if level == STRONG:
                    ok(all(rs <= v for v in vs), lambda: f"{'output' if outw else 'input'} {l} of a call of {f} is not in the variable it is linked with", "element missing")
                else:
                    ok(rs <= frozenset().union(*vs), lambda: f"{'output' if outw else 'input'} {l} of a call of {f} is in none of the variables it is linked with", "element missing")
    return a


# -------------------------------------------------------------- operations
INPLACE = {"drop_node", "drop", "rename", "rename_var", "merge_into", "merge_vars", "back", "forward", "all", "cleanup"}


def perform(cf, o, pool, inplace=False):
    k, *a = o
    kw = {"inplace": True} if inplace else {}
    if k == "copy":
        return cf.copy()
    if k == "drop_node":
        return cf.drop_node(a[0], **kw)
    if k == "drop":
        return cf.drop(list(a), **kw)
    if k == "rename":
        return cf.rename(vars={a[0]: a[1]}, **kw)
    if k == "rename_var":
        return cf.rename_var(a[0], a[1], **kw)
    if k == "merge_into":
        return cf.merge_into(a[0], a[1], **kw)
    if k == "merge_vars":
        return cf.merge_vars(**kw)
    if k == "cleanup":
        return cf.cleanup(**kw)
    if k == "simplify":         # only in place
        cf = cf.copy()
        cf.simplify()
        return cf
    if k == "drop_call":        # only in place
        cf = cf.copy()
        cf.drop_call(*a)
        return cf
    if k in ("back", "forward"):
        vn, rec, reuse, skip = (a + [None, False, True, False][len(a):])
        return getattr(cf, "expand_" + k)(varnames=vn if vn is None or isinstance(vn, str) else set(vn), recursive=rec, reuse_existing=reuse, skip_existing=skip, **kw)
    if k == "all":
        return cf.expand_all(reuse_existing=a[0] if a else True, **kw)
    if k == "select":
        return cf.select_nodes(list(a))
    if k == "getitem":
        return cf[list(a)] if len(a) > 1 else cf[a[0]]
    if k in ("up", "down", "mid"):
        return getattr(cf, k + "stream")(*a[0], how=a[1])
    if k == "unreachable":
        return cf.drop_unreachable(direction=a[0], how=a[1])
    if k == "isin":
        return cf.isin(a[1], by=a[0])
    if k == "lt":
        return cf < a[0]
    if k == "or":
        return cf | pool[a[0]]
    if k == "ror":
        return pool[a[0]] | cf
    if k == "and":
        return cf & pool[a[0]]
    if k == "sub":
        return cf - pool[a[0]]
    if k == "rsub":
        return pool[a[0]] - cf
    raise AssertionError(o)


def union(*ss):
    return frozenset().union(*ss)


def f_union(a, b):
    j = lambda x, y: {k: x.get(k, frozenset()) | y.get(k, frozenset()) for k in {**x, **y}}
    return A(j(a.vs, b.vs), j(a.fs, b.fs), a.edges | b.edges)


def f_inter(a, b):
    j = lambda x, y: {k: x[k] & y[k] for k in x if k in y}
    r = A(j(a.vs, b.vs), j(a.fs, b.fs), a.edges & b.edges)
    return r.only(set(r.sets))


def strong_valid(a, g):
    for s, t, l in a.edges:
        if t in a.fs:
            if any(not g.ins(c, l) <= a.vs[s] for c in a.fs[t]):
                return False
        elif any(not g.outs(c, l) <= a.vs[t] for c in a.fs[s]):
            return False
    return True


def connected(a, e, g, x, forward):
    """elements at the far end of edge e linked with x, an element at the near end"""
    s, t, l = e
    far = t if forward else s
    if (s if forward else t) in a.vs:
        return {c for c in a.sets[far] if x in (g.ins(c, l) if forward else g.outs(c, l))}
    return (g.outs(x, l) if forward else g.ins(x, l)) & a.sets[far]


def source_elts(a, g, forward=True):
    """elements nothing in the frame leads to (forward) or starts from"""
    res = {}
    for n, xs in a.sets.items():
        es = [e for e in a.edges if e[1 if forward else 0] == n]
        res[n] = frozenset(x for x in xs if not any(connected(a, e, g, x, not forward) for e in es))
    return res


def reach(a, g, start, forward, strong):
    res = {n: set(start.get(n, ())) for n in a.sets}
    changed = True
    while changed:
        changed = False
        for n in a.sets:
            es = [e for e in a.edges if e[1 if forward else 0] == n]
            far = 0 if forward else 1
            for x in a.sets[n] - res[n]:
                if n in a.vs or not strong:
                    ok = any(connected(a, e, g, x, not forward) & res[e[far]] for e in es)
                else:
                    need, have = set(), set()
                    for e in es:
                        names = {k: r for k, r in g.calls[x][1 if forward else 2].items() if label(g.calls[x][0], k) == e[2]}
                        need |= set(names)
                        have |= {k for k, r in names.items() if r in res[e[far]]}
                    ok = need and need == have
                if ok:
                    res[n].add(x)
                    changed = True
    return res


def nodes_reach(a, nodes, forward):
    res, todo = set(nodes), list(nodes)
    while todo:
        n = todo.pop()
        for s, t, l in a.edges:
            x, y = (s, t) if forward else (t, s)
            if x == n and y not in res:
                res.add(y)
                todo.append(y)
    return res


def path_nodes(a, s, t):
    """nodes on simple paths from s to t"""
    succ = collections.defaultdict(set)
    for x, y, _ in a.edges:
        succ[x].add(y)
    res = set()

    def go(n, path):
        if n == t:
            res.update(path)
            return
        for y in succ[n]:
            if y not in path:
                go(y, path + [y])
    go(s, [s])
    return res


def has_cycle(a):
    return any(n in nodes_reach(a, [t for s, t, _ in a.edges if s == n], True) for n in a.sets)


def drop_empty(a):
    return a.only({n for n, x in a.sets.items() if x})


def adjacent_calls(a, g, picked):
    """the picked references and the calls linked with them"""
    res = {n: set(picked.get(n, ())) for n in a.sets}
    for s, t, l in a.edges:
        if t in a.fs:
            for x in picked[s]:
                res[t] |= connected(a, (s, t, l), g, x, True)
        else:
            for x in picked[t]:
                res[s] |= connected(a, (s, t, l), g, x, False)
    return res


def spec(a, o, g, pool):
    """-> (the frame that should result or None if only constrained, how consistent it is at least, 'error' allowed?)"""
    k, *r = o
    S = STRONG
    if k == "copy":
        return a, S
    if k == "drop_node" or k == "drop":
        return a.only(set(a.sets) - set(r)), S
    if k in ("rename", "rename_var"):
        if r[0] == r[1]:
            return a, S
        if r[1] in a.sets:
            return "error", S
        n = lambda x: r[1] if x == r[0] else x
        return A({n(x): v for x, v in a.vs.items()}, a.fs, {(n(s), n(t), l) for s, t, l in a.edges}), S
    if k == "merge_into":
        n = lambda x: r[1] if x == r[0] else x
        vs = {x: v for x, v in a.vs.items() if x != r[0]}
        vs[r[1]] = vs[r[1]] | a.vs[r[0]]
        return A(vs, a.fs, {(n(s), n(t), l) for s, t, l in a.edges}), S
    if k in ("cleanup", "simplify"):
        return drop_empty(a), S
    if k in ("select", "getitem"):
        return a.only(set(r)), S
    if k in ("up", "down"):
        b = a.only(nodes_reach(a, r[0], k == "down"))
        return b.sub(reach(b, g, {n: b.sets[n] for n in r[0]}, k == "down", r[1] == "strong")), WEAK if r[1] == "strong" and len(r[0]) == 1 and not has_cycle(b) else LOOSE
    if k == "mid":
        ns = set(r[0])
        for s in r[0]:
            for t in r[0]:
                if s != t:
                    ns |= path_nodes(a, s, t)
        b = a.only(ns)
        st = {n: x for n, x in source_elts(b, g).items() if n in r[0]}
        return b.sub(reach(b, g, st, True, r[1] == "strong")), LOOSE
    if k == "unreachable":
        st = source_elts(a, g, r[0] == "forward")
        return a.sub(reach(a, g, st, r[0] == "forward", r[1] == "strong")), LOOSE
    if k == "isin":
        f = {"val": lambda h: g.val[h] in r[1], "hid": lambda h: h in r[1], "cid": lambda h: g.cid[h] in r[1]}[r[0]]
        return a.sub(adjacent_calls(a, g, {n: frozenset(h for h in v if f(h)) for n, v in a.vs.items()})), LOOSE
    if k == "lt":
        return a.sub(adjacent_calls(a, g, {n: frozenset(h for h in v if g.val[h] < r[0]) for n, v in a.vs.items()})), LOOSE
    if k in ("or", "ror"):
        u = f_union(a, view(pool[r[0]]))
        return (u, S) if not set(u.vs) & set(u.fs) and strong_valid(u, g) else ("maybe", S)
    if k == "and":
        return f_inter(a, view(pool[r[0]])), S
    return None, S


def check_diff(a, b, r, g, what):
    """what the difference of two frames must be"""
    sb = b.sets
    k = {n: x - sb.get(n, frozenset()) for n, x in a.sets.items()}
    def show(n, xs):
        return f"{n}: {sorted(g.calls[x][0] if x in g.calls else str(g.val[x]) for x in xs)}"
    for n, x in r.sets.items():
        check(n in k, lambda: f"{what}: node {n} is new", "difference node")
        check(x <= k[n], lambda: f"{what}: elements that are not in the difference, {show(n, x - k[n])}", "difference extra")
        check(x, lambda: f"{what}: empty node {n} kept", "difference empty node")
    check(r.edges == {e for e in a.edges if e[0] in r.sets and e[1] in r.sets}, f"{what}: links", "difference links")
    # elements with nothing removed in what led to them, nor beside them
    bad = {(n, x) for n, xs in a.sets.items() for x in xs - k[n]}
    todo = list(bad)
    while todo:
        n, x = todo.pop()
        more = []
        for e in a.edges:
            if e[0] == n:
                more += [(e[1], y) for y in connected(a, e, g, x, True)]
            if e[1] == n and n in a.vs:     # a missing output
                more += [(e[0], y) for y in connected(a, e, g, x, False)]
        for p in more:
            if p not in bad:
                bad.add(p)
                todo.append(p)
    for n, xs in k.items():
        keep = {x for x in xs if (n, x) not in bad}
        check(keep <= r.sets.get(n, frozenset()), lambda: f"{what}: lost {show(n, keep - r.sets.get(n, frozenset()))}", "difference lost")


def check_expand(a, o, r, g, what):
    """what an expansion must be"""
    k, *args = o
    vn = args[0] if k != "all" and args else None
    rec = args[1] if k != "all" and len(args) > 1 else False
    skip = args[3] if k != "all" and len(args) > 3 else False
    check(all(n in r.sets and x <= r.sets[n] for n, x in a.sets.items()) and a.edges <= r.edges, lambda: f"{what}: something of the frame is gone", "expand lost")
    dirs = {"back": ["back"], "forward": ["forward"], "all": ["back", "forward"]}[k]
    vs = set(a.vs) if vn is None else {vn} if isinstance(vn, str) else set(vn)
    front = {}
    for d in dirs:
        e = source_elts(a, g, d == "back")
        # (expansion does not look at labels when it decides what is connected)
        front[d] = union(*[e[v] for v in vs])
    new = r.calls() - a.calls()
    if k == "all":
        R, C = set(union(*front.values())), set()
        while True:
            n = len(R) + len(C)
            R, C = g.back(R, C)
            R, C = g.forth(R, C)
            if len(R) + len(C) == n:
                break
        allR, allC = set(a.refs()), set(a.calls())
        while True:
            n = len(allR) + len(allC)
            allR, allC = g.back(*g.forth(*g.back(allR, allC)))
            for c in allC:
                allR |= g.ins(c) | g.outs(c)
            if len(allR) + len(allC) == n:
                break
        upper = allC
        lower = g.back(front["back"])[1]
    elif rec and vn is None:
        f = g.back if k == "back" else g.forth
        # what is connected already is not followed (nor, with `skip`, any call of the frame)
        lower, todo, done = set(), list(front[k]), set(front[k])
        while todo:
            x = todo.pop()
            for c in ({g.creator[x]} if x in g.creator else ()) if k == "back" else g.consumers.get(x, ()):
                if c not in lower and not (skip and c in a.calls()):
                    lower.add(c)
                    more = (g.ins(c) if k == "back" else g.outs(c)) - done - a.refs()
                    done |= more
                    todo += more
        upper = f(set(a.refs()), a.calls())[1]
        if k == "back":
            upper = g.back(set(a.refs()) | {x for c in a.calls() for x in g.outs(c)}, a.calls())[1]
    else:
        lower = {g.creator[x] for x in front[k] if x in g.creator} if k == "back" else {c for x in front[k] for c in g.consumers.get(x, ())}
        upper = lower
    check(lower <= r.calls(), lambda: f"{what}: misses calls of {sorted(g.calls[c][0] for c in lower - r.calls())}; {r.show(g)}", "expand missing")
    check(new <= upper, lambda: f"{what}: has added calls of {sorted(g.calls[c][0] for c in new - upper)}; {r.show(g)}", "expand too much")
    # references come from calls
    io = {x for c in r.calls() for x in g.ins(c) | g.outs(c)}
    check(r.refs() - a.refs() <= io, f"{what}: references of no call", "expand references")
    for c in new:
        side = g.ins(c) if k == "back" else g.outs(c)
        if k != "all" or True:
            check(side <= r.refs() or k == "all" and (g.ins(c) <= r.refs() or g.outs(c) <= r.refs()), lambda: f"{what}: {'inputs' if k == 'back' else 'outputs'} of a call of {g.calls[c][0]} are missing", "expand incomplete call")
    # what was expanded is connected now
    # (without reuse, nodes are unfolded further and further, until there is nothing new)
    for d in dirs if not skip and not (k == "all" and args and not args[0]) else ():
        e = source_elts(r, g, d == "back")
        whole = k == "all" or (rec and vn is None)
        for v in (r.vs if whole else vs):
            for x in e[v]:
                if not whole and x not in a.vs[v]:
                    continue      # came with this expansion
                check(x not in g.creator if d == "back" else not g.consumers.get(x), lambda: f"{what}: a reference in {v} is still without the call that "
                      f"{'created' if d == 'back' else 'used'} it; {r.show(g)}", f"not expanded {d}")


def starts(g, few=False):
    """recipes for frames to begin with"""
    ops = sorted({o for o, _, _ in g.calls.values()} & set(OPS))
    n = len(g.refs)
    res = [("op", o) for o in ops] + [("refs", i) for i in range(n) if not few or i in (0, n - 1)]
    if n > 1:
        res += [("refs",) + tuple(range(n)), ("vars", ("x", (0, n - 1)), ("y", (n - 1,)))]
        if not few or n < 6:
            res.append(("vars",) + tuple((f"v{i}", (i,)) for i in range(n)))
    return res


def make(g, s):
    k, *a = s
    if k == "op":
        return g.st.cf(OPS[a[0]])
    if k == "refs":
        return g.st.cf([g.refs[i] for i in a])
    if k == "ref":
        return g.st.cf(g.refs[a[0]])
    if k == "hids":
        return g.st.cf([g.refs[i].hid for i in a])
    if k == "vars":
        return g.st.cf({n: [g.refs[i] for i in xs] for n, xs in a})
    if k == "unfold":           # everything that led to a value, in as many nodes as calls
        return g.st.cf({"v": [g.refs[a[0]]]}).expand_back(recursive=True, reuse_existing=False)
    if k == "twice":            # a call in two functions that lead to one variable
        cf = g.st.cf({"v": [g.refs[a[0]]], "w": [g.refs[a[0]]]})
        for v in "vw":
            cf.expand_back(v, reuse_existing=False, inplace=True)
        cf.merge_into(node_to_merge="w", merge_into="v", inplace=True)
        return cf
    if k == "raw":              # every input that no call created
        return g.st.cf(sorted(h for h in g.allrefs if h not in g.creator))
    raise AssertionError(s)


def check_start(g, s, a, what):
    k, *r = s
    if k == "op":
        cs = {c for c, (o, _, _) in g.calls.items() if o == r[0]}
        check(a.calls() == cs and len(a.fs) == 1, f"{what}: calls", "start calls")
        check(a.refs() == {x for c in cs for x in g.ins(c) | g.outs(c)}, f"{what}: references", "start references")
        f = next(iter(a.fs))
        want = {(l, True) for c in cs for l in g.inl(c)} | {(l, False) for c in cs for l in g.outl(c)}
        check({(l, t == f) for s_, t, l in a.edges} == want and len(a.edges) == len(want) == len(a.vs), f"{what}: links", "start links")
    elif k in ("refs", "ref", "hids"):
        check(not a.fs and a.refs() == {g.refs[i].hid for i in r} and len(a.vs) == 1, f"{what}: references", "start references")
    elif k == "vars":
        check(not a.fs and a.vs == {n: frozenset(g.refs[i].hid for i in xs) for n, xs in r}, f"{what}: variables", "start variables")


class Explorer:
    def __init__(self, g, opsof, pool=None, inplace=True, extra=None, exact=None, sound=None, after=None):
        """exact: operations whose results are compared, sound: whose results must be consistent (None: all)"""
        self.g, self.opsof, self.pool, self.inplace, self.extra = g, opsof, pool or {}, inplace, extra
        self.exact, self.sound, self.after = exact, sound, after
        self.levels = {}
        self.seen = {}
        self.n = 0
        self.poolviews = {k: deepview(v) for k, v in self.pool.items()}

    def run(self, start, depth):
        g = self.g
        cf = make(g, start)
        what = f"{start}"
        a = consistent(cf, g, STRONG, what)
        check_start(g, start, a, what)
        frontier = [(cf, a, STRONG, (start,))]
        self.seen[a.key()] = STRONG
        for d in range(depth):
            nxt = []
            for cf, a, lev, hist in frontier:
                before = deepview(cf)
                for o in self.opsof(cf, a, g, lev, d):
                    res = self.step(cf, a, lev, hist, o)
                    check(deepview(cf) == before, lambda: f"{hist}: {o} changed the frame it was applied to", f"changes its operand {o[0]}")
                    if res is None:
                        continue
                    r, ra, rl = res
                    k = ra.key()
                    if self.seen.get(k, -1) < rl:
                        self.seen[k] = rl
                        nxt.append((r, ra, rl, hist + (o,)))
            frontier = nxt
        return {"steps": self.n, "states": [hash_key(k) for k in self.seen], "outcome": sorted(self.seen)}

    def step(self, cf, a, lev, hist, o):
        if self.sound is None or o[0] in self.sound:
            return self._step(cf, a, lev, hist, o)
        try:
            return self._step(cf, a, lev, hist, o)
        except (Violation, Exception):
            return None     # for another check to judge

    def _step(self, cf, a, lev, hist, o):
        rearm()
        g = self.g
        what = f"{' '.join(map(str, hist))}, then {o}"
        self.n += 1
        exp, level = spec(a, o, g, self.pool) if o[0] != "drop_call" else (A(a.vs, {**a.fs, o[1]: a.fs[o[1]] - {o[2]}}, a.edges), STRONG)
        level = min(level, lev)
        if o[0] in ("or", "ror", "and", "sub", "rsub"):
            level = min(level, self.levels.get(o[1], STRONG))
            if o[0] in ("or", "ror") and isinstance(exp, A):
                level = STRONG      # a union that isn't is refused
        error, maybe = (isinstance(exp, str) and exp == x for x in ("error", "maybe"))
        try:
            r = perform(cf, o, self.pool)
        except Exception as e:
            if error and isinstance(e, ValueError):
                return None
            if (maybe or min(lev, self.levels.get(o[1], STRONG)) < STRONG and o[0] in ("or", "ror")) and isinstance(e, AssertionError):
                return None
            raise type(e)(f"{what} on {a.show(g)}: {e}").with_traceback(e.__traceback__)
        check(not error, f"{what}: was not refused", f"not refused {o[0]}")
        check(isinstance(r, CF), lambda: f"{what}: gave {r!r}", f"no frame {o[0]}")
        if maybe:
            exp = None
        ra = consistent(r, g, level, what)
        exact = self.exact is None or o[0] in self.exact
        if exact and exp is not None:
            check(ra == exp, lambda: f"{what} on {a.show(g)}: gave {ra.show(g)} instead of {exp.show(g)}", f"wrong {o[0]}")
        if exact and o[0] in ("back", "forward", "all") and lev == STRONG:
            check_expand(a, o, ra, g, what + " on " + a.show(g))
        if exact and o[0] == "sub" and lev == STRONG:
            check_diff(a, view(self.pool[o[1]]), ra, g, what + f" on {a.show(g)}")
        if exact and o[0] == "rsub":
            check_diff(view(self.pool[o[1]]), a, ra, g, what + f" on {a.show(g)}")
        for k, v in self.pool.items():
            if o[0] in ("or", "ror", "and", "sub", "rsub") and o[1] == k:
                check(deepview(v) == self.poolviews[k], f"{what}: changed the other frame", f"changes its operand {o[0]}")
        if self.inplace and o[0] in INPLACE:
            c = cf.copy()
            ret = perform(c, o, self.pool, inplace=True)
            check(ret is None, f"{what}: in place, but gave a value", f"in place result {o[0]}")
            ca = consistent(c, g, level, what + " in place")
            check(ca == ra, lambda: f"{what} on {a.show(g)}: in place gives {ca.show(g)}, copying {ra.show(g)}", f"in place {o[0]}")
        if self.after and exact and lev == STRONG:
            self.after(o, r, ra, g, what)
        if self.extra:
            self.extra(r, ra, level, g, what)
        return r, ra, level


def hash_key(k):
    from .core import digest
    return digest(k)
