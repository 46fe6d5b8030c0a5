"""M13: several sessions on one database. Real sessions run under a controlled scheduler that
decides which of them turns to the database next; all schedules with a bounded number of
preemptions are run."""
import os, shutil, itertools
from ..core import Violation, rearm, digest
from ..world import check, Hooks
from .. import world as W
from ..prog import Run, contents, complete, Scratch, O
from ..sched import Sched, schedules
from ..store import reset_globals
from mandala.imports import Storage
from mandala.model import Context

LEVEL = "model_checking"
BOUNDS = "all schedules of the sessions' transactions with at most the stated number of preemptions"
ASSUMPTIONS = ["sessions meet only in the database: what a session does between its transactions touches nothing another one uses",
               "SQLite serializes transactions (the real library runs; only its waiting is replaced by scheduling)"]

_expect = {}


def alone(words, ov):
    """what the sessions do one after the other"""
    key = (words, ov)
    if key not in _expect:
        d = Scratch.new()
        vals = []
        try:
            for w in words:
                r = Run(w, ov, where=d)
                r.all()
                vals.append([[(x.hid, x.cid, repr(r.st.unwrap(x))) for x in m] for m in r.made])
                r.close()
            fin = complete(contents(r.fresh()))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        _expect[key] = (vals, fin)
    return _expect[key]


def together(words, ov, made, patient, points, pre):
    rearm()
    d = Scratch.new()
    label = f"sessions {words}{'' if ov is None else ', values in files'}, preemptions {pre}"
    try:
        reset_globals()
        if made:
            r = Run("", ov, where=d)
            r.all()
            if isinstance(made, str):
                r = Run(made, ov, where=d)
                r.all()
        reset_globals()
        runs = [Run(w, ov, where=d) for w in words]
        s = Sched([r.all for r in runs], pre, patient, points).run()
        for i, e in enumerate(s.errors):
            if e is not None:
                if isinstance(e, W.Hang):
                    raise Violation(f"{label}: session {i} never gets on", "hang")
                raise Violation(f"{label}: session {i} fails with {type(e).__name__}: {e}\n{getattr(e, 'text', '')}", f"fails {type(e).__name__}")
        for i, r in enumerate(runs):
            check(all(s.done), f"{label}: not all sessions ended")
        return runs, s, d, label
    except BaseException:
        shutil.rmtree(d, ignore_errors=True)
        raise


def one(item):
    words, ov, made, patient, points, bound, share = item
    vals, fin = alone(((made,) if isinstance(made, str) else ()) + words, ov)
    if isinstance(made, str):
        vals = vals[1:]
    outs = set()

    def make(pre):
        runs, s, d, label = together(words, ov, made, patient, points, pre)
        try:
            st = runs[0].fresh()
            got = complete(contents(st))
            check(got == fin, lambda: f"{label}: in the end there are {len(got)} calls, expected {len(fin)}: missing "
                  f"{[fin[h][0] for h in fin if h not in got]}, extra {[got[h][0] for h in got if h not in fin]}", "end")
            for i, r in enumerate(runs):
                v = [[(x.hid, x.cid, repr(st.unwrap(st.load_ref(x.hid)))) for x in m] for m in r.made]
                check(v == vals[i], lambda: f"{label}: session {i} got {v}, expected {vals[i]}", "results")
            before = sum(O.COUNTS.values())
            for w in words:
                r = Run(w, ov, where=d)
                r.all()
            check(sum(O.COUNTS.values()) == before, f"{label}: made again, calls are executed again", "again")
            outs.add(tuple((x[0], x[2]) for x in s.log))
            return s
        finally:
            for r in runs:
                r.st = None
            shutil.rmtree(d, ignore_errors=True)
    n = schedules(make, bound, share)
    return {"outcome": (item, len(outs)), "steps": n, "states": [digest((words, ov, made, o)) for o in outs]}


PARTS = {"sessions": one}


PAIRS = [("A", "A"), ("A", "W"), ("B", "B"), ("M", "M"), ("S", "S"), ("M", "A"), ("N", "N"), ("S", "B"), ("AR", "A"), ("AK", "W"), ("AP", "M")]


def items(groups, ovs, mades, bound, shares, patient=True):
    for g in groups:
        for words in sorted(set(itertools.permutations(g))):
            for ov in ovs if any("B" in w for w in words) else ovs[:1]:
                for made in mades:
                    for k in range(shares):
                        yield (words, ov, made, patient, ("begin",) + (("connect",) if not made else ()) + (("commit",) if not patient else ()), bound, (k, shares))


def run(ctx):
    what = "%s sessions, up to %d preemptions"
    ovs = (None, 0.001)
    ctx.enumerate("sessions/one", one, items(PAIRS, ovs, (False, True, "A"), 1, 2), chunksize=1, what=what % ("two", 1) + ", new or existing database")
    two = [("A", "A"), ("A", "W"), ("S", "S")] if ctx.quick else PAIRS
    ctx.enumerate("sessions/two", one, items(two, ovs, (True,), 2, 16), chunksize=1, what=what % ("two", 2))
    ctx.enumerate("sessions/impatient", one, items(PAIRS[:4], ovs, (True,), ctx.pick(1, 2), 4, False), chunksize=1,
                  what=what % ("two", ctx.pick(1, 2)) + ", no waiting for locks")
    ctx.enumerate("sessions/three", one, items([("A", "A", "W"), ("B", "B", "B")], ovs, (True,), ctx.pick(1, 2), 8), chunksize=1,
                  what=what % ("three", ctx.pick(1, 2)))
    if not ctx.quick:
        ctx.enumerate("sessions/new", one, items(PAIRS[:4], ovs, (False,), 2, 16), chunksize=1, what=what % ("two", 2) + ", new database")
        ctx.enumerate("sessions/deep", one, items([("A", "A")], ovs, (True,), 3, 64), chunksize=1, what=what % ("two", 3))
