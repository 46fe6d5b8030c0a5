"""M14: stored values cannot be altered by mutating objects in memory. All histories of
calls, ways to get at a value, and in-place mutation of everything the user has got hold of."""
import collections, copy, os, shutil
import numpy as np
import pandas as pd
from ..core import Violation, Scratch, digest
from ..world import check, Hooks
from .. import world as W
W.load()
from mandala.imports import Storage, op, MList, MDict
from mandala.model import Context, Ref, ListRef, DictRef, AtomRef

LEVEL = "model_checking"
BOUNDS = "per kind of value and function: all histories of the given depth"

RUNS = collections.Counter()


class Obj:
    def __init__(self):
        self.xs = [1, 2]

    def __eq__(self, o):
        return type(o) is Obj and self.__dict__ == o.__dict__


def make(kind):
    return {"list": lambda: [3, 1, [2]], "dict": lambda: {"a": 1, "b": [2]}, "set": lambda: {1, 2}, "array": lambda: np.arange(4.0),
            "frame": lambda: pd.DataFrame({"a": [1, 2], "b": [3, 4]}), "obj": lambda: Obj(), "bytes": lambda: bytearray(b"abc"),
            "series": lambda: pd.Series([1, 2, 3])}[kind]()


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and np.array_equal(a, b)
    if isinstance(a, (pd.DataFrame, pd.Series)):
        return a.equals(b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return a == b


def mutate(o, seen):
    """changes an object and all its parts in place"""
    if id(o) in seen:
        return
    seen[id(o)] = o
    if isinstance(o, (ListRef, DictRef, AtomRef)):
        if o.in_memory:
            mutate(o.obj, seen)
        return
    if isinstance(o, list):
        for x in o:
            mutate(x, seen)
        o.append(99)
    elif isinstance(o, tuple):
        for x in o:
            mutate(x, seen)
    elif isinstance(o, dict):
        for x in list(o.values()):
            mutate(x, seen)
        o["zz"] = 99
    elif isinstance(o, set):
        o.add(99)
    elif isinstance(o, bytearray):
        o += b"z"
    elif isinstance(o, np.ndarray):
        o += 1
    elif isinstance(o, pd.DataFrame):
        o.iloc[0, 0] = 99
        o["new"] = 1
    elif isinstance(o, pd.Series):
        o.iloc[0] = 99
    elif isinstance(o, Obj):
        o.xs.append(99)
        o.y = 1


def run_(name):
    RUNS[name] += 1


@op
def ident(x):
    run_("ident")
    return x


@op
def box(x):
    run_("box")
    return [x, x]


@op(output_names=["p", "q"])
def pair(x):
    run_("pair")
    return x, x


@op
def mkl(x) -> MList[list]:
    run_("mkl")
    return [x, x]


@op
def mkd(x) -> MDict[str, list]:
    run_("mkd")
    return {"a": x, "b": x}


@op
def takel(xs: MList[list]):
    run_("takel")
    return list(xs)


@op
def both(x, y):
    run_("both")
    return [x, y]


@op
def later(x):
    run_("later")
    return [x]


# name -> (op, how to call it with a value, expected outputs, output names)
FNS = {
    "ident": (ident, lambda v: (v,), lambda v: [v]),
    "box": (box, lambda v: (v,), lambda v: [[v, v]]),
    "pair": (pair, lambda v: (v,), lambda v: [v, v]),
    "mkl": (mkl, lambda v: (v,), lambda v: [[v, v]]),
    "mkd": (mkd, lambda v: (v,), lambda v: [{"a": v, "b": v}]),
    "takel": (takel, lambda v: ([v, v],), lambda v: [[v, v]]),
    "both": (both, lambda v: (v, v), lambda v: [[v, v]]),
}


class World:
    def __init__(self, p):
        Context.current_context = None
        Hooks.reset()
        RUNS.clear()
        self.p = p
        self.kind, self.fn = p["kind"], p["fn"]
        self.dir = Scratch.new()
        self.st = self.open()
        self.in_ctx = False
        self.alias = []
        self.refs = None         # the references of the first call
        self.lost = None
        self.last = self.done = False
        self.apply(("call",))

    def open(self):
        kw = dict(overflow_dir=os.path.join(self.dir, "ov"), overflow_threshold_MB=0) if self.p.get("overflow") else {}
        return Storage(db_path=os.path.join(self.dir, "db") if self.p["file"] else ":memory:", **kw)

    def enter(self):
        if not self.in_ctx:
            self.st.__enter__()
            self.in_ctx = True

    def exit(self):
        if self.in_ctx:
            self.in_ctx = False
            self.st.__exit__(None, None, None)

    def close(self):
        Context.current_context = None
        self.st = None
        shutil.rmtree(self.dir, ignore_errors=True)

    def enabled(self):
        if self.done:
            return self.evs
        evs = [("call",), ("unwrap",), ("attach",), ("load",), ("calls",), ("inplace",), ("mutate",), ("next",), ("block",), ("clear",), ("preload",)]
        if self.p["file"]:
            evs.append(("reopen",))
        # histories without a mutation are not interesting, nor is mutating twice in a row
        if len(self.hist) == self.p["depth"] and ("mutate",) not in self.hist:
            return [("mutate",)]
        if self.hist[-1] == ("mutate",):
            evs.remove(("mutate",))
        return evs

    def canon(self):
        return self.key if self.done else self.key_()

    def key_(self):
        return (tuple(self.hist), self.p["kind"])     # no merging: aliasing is not visible from outside

    def apply(self, e):
        self.hist = getattr(self, "hist", []) + [e]
        getattr(self, "ev_" + e[0])()
        if self.last:
            self.key, self.evs, self.done = self.key_(), self.enabled(), True
            self.verify()

    # ---- events
    def ev_call(self):
        """call on a newly made equal value"""
        self.enter()
        f, args, outs = FNS[self.fn]
        v = make(self.kind)
        a = args(v)
        before = RUNS[self.fn]
        res = f(*a)
        want = 0 if self.refs else 1
        check(RUNS[self.fn] - before == want, lambda: f"{self.fn} ran {RUNS[self.fn] - before} times on an equal value, expected {want}", "runs")
        rs = res if isinstance(res, tuple) else (res,)
        clean = [self.st.unwrap(r) for r in rs]
        fresh = outs(make(self.kind))
        check(len(clean) == len(fresh) and all(map(same, clean, fresh)), lambda: f"{self.fn} gives {clean}, expected {fresh}", "call value")
        if self.refs:
            check([r.hid for r in rs] == [r.hid for r in self.refs] and [r.cid for r in rs] == [r.cid for r in self.refs], "ids changed", "ids")
        else:
            self.hids = [r.hid for r in rs]
        self.refs = rs
        self.alias += [v, a, rs, clean]

    def ev_unwrap(self):
        self.alias.append(self.st.unwrap([r.detached() if isinstance(r, AtomRef) else self.load(r.hid) for r in self.refs]))
        self.judge(self.alias[-1], "unwrapping")

    def ev_attach(self):
        self.alias.append(self.st.attach([r.detached() if isinstance(r, AtomRef) else self.load(r.hid) for r in self.refs]))
        self.judge([self.st.unwrap(x) for x in self.alias[-1]], "attaching")

    def load(self, hid, **kw):
        return self.st.load_ref(hid, **kw)

    def ev_load(self):
        a = [self.load(h) for h in self.hids]
        self.alias.append(a)
        self.judge([self.st.unwrap(x) for x in a], "loading")

    def ev_inplace(self):
        a = [self.load(h, in_memory=True) for h in self.hids]
        self.st.attach(a, inplace=True)
        self.alias.append(a)
        self.judge([self.st.unwrap(x) for x in a], "attaching in place")

    def ev_calls(self):
        self.exit()
        cs = self.st.get_creators(self.hids)
        ins = [x for c in cs for x in c.inputs.values()]
        vals = self.st.unwrap(ins)
        self.st.attach(ins, inplace=True)
        self.alias.append([ins, vals, [self.st.unwrap(x) for c in cs for x in c.outputs.values()]])

    def ev_next(self):
        """a further function on references of the values, as stored"""
        self.enter()
        rs = [later(self.load(h, in_memory=True)) for h in self.hids]
        vals = [self.st.unwrap(r) for r in rs]
        want = [[v] for v in FNS[self.fn][2](make(self.kind))]
        check(all(map(same, vals, want)), lambda: f"a function given stored values returned {vals}, expected {want}", "next value")
        self.alias += [rs, vals]

    def ev_mutate(self):
        seen = {}
        for a in self.alias:
            mutate(a, seen)

    def ev_block(self):
        self.exit()
        self.enter()

    def ev_clear(self):
        self.exit()
        self.st.clear_cache()

    def ev_preload(self):
        self.exit()
        self.st.preload(lazy=False)

    def ev_reopen(self):
        self.exit()
        self.st = self.open()

    # ---- oracle
    def judge(self, got, where):
        want = FNS[self.fn][2](make(self.kind))
        check(all(map(same, got, want)), lambda: f"{where} gives {got}, expected {want}", where)

    def verify(self):
        for again in (False, True):
            self.judge([self.st.unwrap(self.load(h)) for h in self.hids], "loading")
            self.judge(self.st.unwrap([self.load(h, in_memory=True) for h in self.hids]), "unwrapping")
            self.exit()
            f, args, outs = FNS[self.fn]
            seen = set()
            for c in self.st.get_creators(self.hids):
                ins = {k: self.st.unwrap(r) for k, r in c.inputs.items()}
                want = dict(zip(ins, args(make(self.kind))))
                check(all(same(ins[k], want[k]) for k in ins), lambda: f"inputs of the call are {ins}, expected {want}", "inputs")
                seen |= {r.hid for r in c.outputs.values()}
                check(all(same(self.st.unwrap(r), o) for r, o in zip(c.op.get_ordered_outputs(c.outputs), outs(make(self.kind)))), "outputs of the call", "outputs")
            check(set(self.hids) <= seen, "creator missing", "creator")
            for c in self.st.get_consumers(self.hids):
                if c.op.name == "later":
                    v = [self.st.unwrap(r) for r in list(c.inputs.values()) + list(c.outputs.values())]
                    good = outs(make(self.kind))
                    check(any(same(v[0], o) and same(v[1], [o]) for o in good), lambda: f"a later call is recorded as {v}", "later call")
            self.enter()
            before = sum(RUNS.values())
            rs = f(*args(make(self.kind)))
            check(sum(RUNS.values()) == before, "an equal value is computed again", "runs")
            rs = rs if isinstance(rs, tuple) else (rs,)
            self.judge([self.st.unwrap(r) for r in rs], "calling again")
            self.exit()
            if not self.p["file"] or again:
                break
            self.st = self.open()


def live(item):
    """passing on a reference whose in-memory object was changed by the user"""
    kind, how = item
    w = World(dict(kind=kind, fn="ident", file=False, depth=0))
    try:
        if how == "attached":
            w.exit()
            r = w.st.attach(w.load(w.hids[0], in_memory=True))
        else:
            r = w.refs[0]
        w.enter()
        mutate(r, {})
        got = w.st.unwrap(later(r))
        check(same(got, [make(kind)]), lambda: f"a reference with the id of {make(kind)} was passed to a function, which returned {got}", "live reference mutated")
        return {"outcome": repr(got)}
    finally:
        w.close()


PARTS = {"live references": live}
KINDS = ("list", "dict", "set", "array", "frame", "obj", "bytes", "series")


def run(ctx):
    def part(name, depth, **p):
        ctx.bfs(name, World, depth, dict(p, depth=depth), chunksize=16)
    for fn in FNS:
        part(f"{fn} list", ctx.pick(3, 4), kind="list", fn=fn, file=True)
    for kind in KINDS[1:]:
        part(f"ident {kind}", ctx.pick(2, 3), kind=kind, fn="ident", file=True)
        if kind in ("array", "obj", "dict"):
            part(f"box {kind}", ctx.pick(2, 3), kind=kind, fn="box", file=True)
    part("list in memory", ctx.pick(3, 4), kind="list", fn="ident", file=False)
    part("list overflow", ctx.pick(3, 4), kind="list", fn="box", file=True, overflow=True)
    ctx.enumerate("live references", live, [(k, h) for k in KINDS for h in ("returned", "attached")], what="known finding")
