"""M08: deleting calls. Histories of calls, deletions, re-execution and session events
on several call graphs, compared with the reference model after every step."""
import os, shutil
from ..store import StoreWorld, reset_globals
from ..core import Scratch
from ..world import check
from mandala.imports import Storage, op, MList, MDict

LEVEL = "model_checking"
BOUNDS = "per part: all histories of the given depth after a fixed call graph"
R0, R1, R2, R3 = ("r", 0), ("r", 1), ("r", 2), ("r", 3)

GRAPHS = {
    # chain with a fork: 0 -> 1 -> 2, and a second use of the first result
    "fork": [("call", "inc", 0), ("call", "par", R0), ("call", "inc", R0), ("call", "add", R1, R2)],
    # diamond with two outputs
    "diamond": [("call", "two", 0, 1), ("call", "inc", R0), ("call", "par", R2), ("call", "add", R1, R0)],
    # equal contents, different histories
    "contents": [("call", "inc", 0), ("call", "par", 1), ("call", "inc", R0), ("call", "inc", R1), ("call", "inc", 1)],
    # collections
    "lists": [("call", "mk", 0), ("call", "tot", R0), ("call", "inc", ("e", 1, 0)), ("call", "tot", ("L", R0, 1))],
}


NOW = {"shift": 0, "ran": []}


def note(name):
    NOW["ran"].append(name)
    return NOW["shift"]


@op
def cf(x):
    return x + 10 * note("cf")


@op
def cl(x) -> MList[int]:
    s = note("cl")
    return [x + 10 * s, 7] + [5] * s


@op
def cd(x) -> MDict[str, int]:
    s = note("cd")
    return {"a": x + 10 * s, "b": 7}


@op
def cg(y):
    return y * 2 + note("cg") * 1000


@op
def ct(xs: MList[int]):
    return sum(xs) + note("ct") * 1000


OPS = {o.f.__name__: o for o in (cf, cl, cd, cg, ct)}
VALUE = {"cf": lambda s, x: x + 10 * s, "cl": lambda s, x: [x + 10 * s, 7] + [5] * s, "cd": lambda s, x: {"a": x + 10 * s, "b": 7},
         "cg": lambda s, y: y * 2 + s * 1000, "ct": lambda s, xs: sum(xs) + s * 1000}


class ChangeWorld:
    """functions whose results change between the deletion of a call and its repetition"""
    EXPR = {"f": ("cf", 1), "l": ("cl", 1), "d": ("cd", 1), "gf": ("cg", ("cf", 1)), "gl": ("cg", ("item", ("cl", 1), 0)),
            "gd": ("cg", ("item", ("cd", 1), "a")), "tl": ("ct", ("cl", 1)), "g1": ("cg", 1)}

    def __init__(self, params):
        reset_globals()
        self.p = params
        self.dir = Scratch.new()
        self.shift = 0
        self.calls = {}         # history -> (op, content of the argument, result)
        self.st = self.open(self.dir)
        self.last = False

    def open(self, d):
        return Storage(db_path=os.path.join(d, "a.db"))

    def close(self):
        try:
            self.st.db._conn.close()
        except Exception:
            pass
        shutil.rmtree(self.dir, ignore_errors=True)

    def enabled(self):
        return [(e,) for e in self.p["calls"]] + [("flip",), ("reopen",), ("clear",)] + [("drop", e) for e in self.p["calls"] if self.saved(self.EXPR[e])]

    def hist(self, e):
        """the value of an expression as far as it is saved, and its history"""
        if not isinstance(e, tuple):
            return e, e
        if e[0] == "item":
            v, h = self.hist(e[1])
            return v[e[2]], ("item", h, e[2])
        v, h = self.hist(e[1])
        h = (e[0], h)
        if h in self.calls:
            return self.calls[h][2], h
        raise KeyError(e)

    def saved(self, e):
        try:
            self.hist(e)
            return True
        except KeyError:
            return False

    def model(self, e, ran):
        if not isinstance(e, tuple):
            return e, e
        v, h = self.model(e[1], ran)
        if e[0] == "item":
            return v[e[2]], ("item", h, e[2])
        h = (e[0], h)
        if h not in self.calls:
            same = [c[2] for c in self.calls.values() if c[:2] == (e[0], v)]
            if not same:
                ran.append(e[0])
            self.calls[h] = (e[0], v, same[0] if same else VALUE[e[0]](self.shift, v))
        return self.calls[h][2], h

    def real(self, e):
        if not isinstance(e, tuple):
            return e
        if e[0] == "item":
            return self.real(e[1])[e[2]]
        return OPS[e[0]](self.real(e[1]))

    def make(self, st, e, what):
        ran = []
        exp, _ = self.model(e, ran)
        NOW["shift"], NOW["ran"] = self.shift, []
        with st:
            ref = self.real(e)
            got = st.unwrap(ref)
        check(got == exp, lambda: f"{what}: {e} gave {got}, expected {exp}", "wrong result")
        check(NOW["ran"] == ran, lambda: f"{what}: {e} ran {NOW['ran']}, expected {ran}", "ran or not")
        return ref

    def apply(self, ev):
        if ev[0] == "flip":
            self.shift ^= 1
        elif ev[0] == "clear":
            self.st.clear_cache()
        elif ev[0] == "reopen":
            self.st.db._conn.close() if getattr(self.st.db, "_conn", None) else None
            self.st = self.open(self.dir)
        elif ev[0] == "drop":
            e = self.EXPR[ev[1]]
            call = self.st.get_ref_creator(self.make(self.st, e, "before deleting"))
            self.st.drop_calls([call], delete_dependents=True)
            gone = {self.hist(e)[1]}

            def uses(h):
                return isinstance(h, tuple) and (h in gone or uses(h[1]))
            self.calls = {h: c for h, c in self.calls.items() if not uses(h)}
        else:
            self.make(self.st, self.EXPR[ev[0]], "in this session")
        if self.last:
            other = Scratch.new()
            for f in os.listdir(self.dir):
                if not f.endswith("-shm"):
                    shutil.copy(os.path.join(self.dir, f), other)
            st = self.open(other)
            for name in self.EXPR:
                if self.saved(self.EXPR[name]):
                    self.make(st, self.EXPR[name], "in a new session")
                    self.make(self.st, self.EXPR[name], "again")
            for name in {c[0] for c in self.calls.values()} & {"cf", "cg"}:
                t = st.cf(OPS[name]).df(values="objs", verbose=False)
                got = sorted(map(tuple, t[[c for c in t.columns if c != name]].values.tolist())) if len(t) else []
                exp = sorted((c[1], c[2]) for c in self.calls.values() if c[0] == name)
                check(sorted(sorted(x) for x in got) == sorted(sorted(x) for x in exp), lambda: f"table of {name}: {got}, expected {exp}", "table")
            st.db._conn.close() if getattr(st.db, "_conn", None) else None
            shutil.rmtree(other, ignore_errors=True)

    def canon(self):
        return sorted(map(repr, self.calls.items())), self.shift


def run(ctx):
    ctx.bfs("changed function", ChangeWorld, ctx.pick(4, 6), dict(calls=("f", "gf", "g1")))
    ctx.bfs("changed function, collections", ChangeWorld, ctx.pick(4, 5), dict(calls=("l", "gl", "tl", "gd")))
    n = ctx.pick(5, 12)
    drops = [("drop", i, d, f) for i in range(n) for d, f in ((False, "hids"), (True, "set"))]
    drops += [("drop", (0, 1), False, "calls"), ("drop", (0, 2), True, "calls"), ("drop", (1, 2), False, "iter"),
              ("drop", (0, 3), False, "gencalls"), ("drop", (1, 3), True, "iter")]
    for g, calls in GRAPHS.items():
        for sess in ctx.pick({"fork": ("reopened", "cleared"), "diamond": ("same",), "contents": ("reopened",),
                              "lists": ("same", "reopened")}[g], ("same", "reopened", "cleared")):
            start = list(calls) + {"same": [("block",)], "reopened": [("reopen",)], "cleared": [("clear",)]}[sess]
            p = dict(file=True, start=tuple(start), refs=4, events=drops + [("clear",), ("reopen",)],
                     calls=[tuple(c[1:]) for c in calls[:3]] + [("inc", 1)])
            if g == "lists":
                p["discover"] = True
                p["calls"] = [("mk", 0), ("tot", ("L", 0, 1)), ("tot", ("r", 1))]
            ctx.bfs(f"{g}/{sess}", StoreWorld, ctx.pick(2, 3) if sess != "cleared" else 2, p)
    # deleting through frames and their tables
    for g, calls in GRAPHS.items():
        ops = sorted({c[1] for c in calls})
        ctx.bfs(f"{g}/frames", StoreWorld, ctx.pick(2, 3), dict(file=True, start=tuple(calls) + (("reopen",),), refs=4, calls=[tuple(c[1:]) for c in calls],
                events=[("drop_cf", o, f) for o in ops for f in ("frame", "refs", "objs")] + [("drop", 0, False, "hids"), ("reopen",)]))
    # deleting in the middle of a block, before anything is saved
    p = dict(file=True, start=tuple(GRAPHS["fork"]), refs=4, events=[("drop_in", i, d) for i in range(ctx.pick(3, 4)) for d in (False, True)] +
             [("block",), ("reopen",), ("clear",)], calls=[("inc", 0), ("par", R0), ("inc", R0)])
    if not ctx.quick:
        ctx.bfs("unsaved", StoreWorld, ctx.pick(3, 4), p)
    p = dict(p, start=p["start"][:2] + (("block",),) + p["start"][2:])
    ctx.bfs("half saved", StoreWorld, ctx.pick(3, 4), p)
    p = dict(p, file=False)
    ctx.bfs("half saved in memory", StoreWorld, ctx.pick(3, 4), p)
