"""V05: what a versioned storage knows survives sessions, failures and the deletion of
versions. All histories of edits, calls, failing blocks, refused synchronizations,
deletions (of versions and calls, in blocks and between them), cache operations and new
sessions, against the reference memo; at every state a new session must give the same."""
import os, shutil, sqlite3, hashlib, builtins
from ..core import Violation, Scratch, rearm
from ..vers import VWorld, VRun
from .. import projects
from .. import probe as P
from ..world import check, Hooks
from mandala.model import Context
from mandala.deps.tracers import DecTracer

LEVEL = "model_checking"
BOUNDS = "all histories up to the depth given per part; at every state all calls are also made in a new session on a copy of the database"
ASSUMPTIONS = ["code does not change while a block is open", "helper functions are decorated with @track, as the documentation requires",
               "a change declared non-semantic does not hide a dependency (the caveat in the documentation)"]

F1, F0 = ("f", (1,)), ("f", (0,))
GF = ("g", (F1,))
P1 = ("p", (1,))


class LifeWorld(VWorld):
    """more: which further events; alphabet of calls `calls`"""
    def enabled(self):
        evs = super().enabled()
        if self.dead:
            return []
        m = self.r.m
        quiet = not m.questions()
        for kind in self.p["more"]:
            if kind in ("open", "clear", "commit"):
                evs.append((kind,))
            elif kind in ("fail", "mid clear", "mid commit", "again", "mid drop"):
                evs += [(kind, *c) for c in self.p["calls"] if quiet]
            elif kind == "drop version":
                evs += [(kind, *s) for s in sorted(self.sems())]
            elif kind in ("drop call", "drop call only"):
                evs += [(kind, *c) for c in self.p["calls"] if quiet and self.top(c) is not None]
        return evs

    def sems(self):
        """versions, as (op, args of the first record of it)"""
        m, res = self.r.m, {}
        for (op, args), rs in sorted(m.records.items()):
            for i, r in enumerate(rs):
                res.setdefault(r.sem(m), (op, args, i))
        return res.values()

    def top(self, c):
        """the record and history of a call that is saved under the current code"""
        m = self.r.m
        args, variant = [], []
        for a in c[1]:
            if isinstance(a, tuple):
                t = self.top(a)
                if t is None:
                    return None
                r, v = t
                args.append(r.value)
                variant.append((r.sem(m), r.args, v))
            else:
                args.append(a)
                variant.append(None)
        r = m.find(c[0], tuple(args))
        return (r, tuple(variant)) if r is not None and tuple(variant) in r.variants else None

    def semver(self, st, m, r):
        """the semantic version id of a record"""
        r0 = self.r
        v = st.get_versioner()
        key = r0.oracle.ops[r.op].key
        found = set()
        for ver in v.get_flat_versions().values():
            if ver.component != key or set(ver.support) != set(r.deps):
                continue
            same = True
            for k in ver.support:
                t = r0.text(v, k, sorted(ver.content_expansion[k])[0])
                cls = {c for c in m.dags[k].cls if (c[c.index(":"):] == t if k in r0.oracle.globals else c == t)}
                same &= {m.dags[k].cls[c] for c in cls} == {m.dags[k].cls[r.deps[k]]}
            if same:
                found.add(ver.semantic_version)
        check(len(found) == 1, lambda: f"version ids {found} for {r}", "no unique version")
        return found.pop()

    def hid(self, c):
        """the id of a saved call, found by making it again"""
        r = self.r
        refs = []
        with r.st:
            refs.append(self.make(c))
        call = r.st.get_ref_creator(refs[0])
        return call.hid

    def make(self, c):
        return self.r.real_op(c[0])(*[self.make(a) if isinstance(a, tuple) else a for a in c[1]])

    def other(self, e):
        r, m = self.r, self.r.m
        r.oracle.memo, m.oracle = m, r.oracle
        kind, c = e[0], tuple(e[1:])
        if kind == "open":
            r.st.db._conn.close() if getattr(r.st.db, "_conn", None) else None
            r.st = r.open()
        elif kind == "clear":
            r.st.clear_cache()
        elif kind == "commit":
            r.st.commit()
        elif kind == "fail":
            r.block([c], "y", fail=True)
        elif kind == "mid clear":
            def do(st, m, args):
                if st:
                    st.commit()
                    st.clear_cache()
            r.block([c, ("!", ()), c, GF], "y", mid={"!": do})
        elif kind == "mid commit":
            def do(st, m, args):
                if st:
                    st.commit()
            r.block([c, ("!", ()), GF], "y", mid={"!": do})
        elif kind == "mid drop":
            # the version is new in this block, or not
            keep = {}

            def find(st, m, args):
                if st:
                    keep["id"] = self.semver(st, keep["memo"], keep["rec"])
                else:
                    keep["memo"], keep["rec"] = m.clone(), self.top(c)[0]

            def do(st, m, args):
                if st:
                    st.drop_version(keep["id"])
                else:
                    m.drop_version(keep["rec"].sem(m))
            r.block([c, GF, ("?", ()), ("!", ()), c, GF], "y", mid={"?": find, "!": do})
        elif kind == "drop version":
            op, args, i = c
            rec = m.records[op, args][i]
            r.st.drop_version(self.semver(r.st, m, rec))
            m.drop_version(rec.sem(m))
        elif kind in ("drop call", "drop call only"):
            rec, variant = self.top(c)
            hid = self.hid(c)
            dep = kind == "drop call"
            r.st.drop_calls([hid], delete_dependents=dep)
            m.drop([(rec, variant)], dep)
        else:
            raise AssertionError(e)

    def apply(self, e):
        super().apply(e)
        if self.last and not self.dead and e[0] != "E":
            self.count()

    def count(self):
        """the calls in the database are those of the memo"""
        r = self.r
        df = r.st.call_storage.get_df()
        n = df.index.get_level_values(0).nunique() if len(df) else 0
        exp = sum(len(x.variants) for rs in r.m.records.values() for x in rs)
        check(n == exp, lambda: f"{n} calls saved, expected {exp}: {r.m.records}", "calls missing" if n < exp else "calls too many")


def world(start):
    w = LifeWorld(dict(project="life", calls=(), probe=(), inspect=False, more=()))
    for e in start:
        w.last = False
        w.apply(e)
    return w


def calls_in_db(db):
    con = sqlite3.connect(db)
    try:
        return con.execute("select count(distinct call_history_id) from calls").fetchone()[0]
    finally:
        con.close()


def memo_calls(m):
    return sum(len(x.variants) for rs in m.records.values() for x in rs)


def crash(item):
    """the process dies at any instant of the last event; a new session must find what was
    there before it or after it"""
    start, event = item
    w = world(start)
    r = w.r
    snaps, seen = [], set()
    try:
        r.load()
        before = r.m.clone()

        def snap(*a):
            fs = {f: open(os.path.join(r.dir, f), "rb").read() for f in sorted(os.listdir(r.dir)) if f.startswith("db.sqlite") and not f.endswith("-shm")}
            k = hashlib.sha1(repr(fs).encode()).digest()
            if k not in seen:
                seen.add(k)
                d = Scratch.new()
                snaps.append(d)
                for f, b in fs.items():
                    with open(os.path.join(d, f), "wb") as h:
                        h.write(b)
        Hooks.on_sql = snap
        try:
            w.apply(event)
        finally:
            Hooks.reset()
        snap()
        after = r.m.clone()
        outcomes = []
        for i, d in enumerate(snaps):
            rearm()
            errors = []
            for name, m in (("before", before), ("after", after)):
                if name == "before" and i == len(snaps) - 1:
                    continue
                try:
                    copy = Scratch.new()
                    for f in os.listdir(d):
                        shutil.copy(os.path.join(d, f), copy)
                    n = calls_in_db(os.path.join(copy, "db.sqlite"))
                    check(n == memo_calls(m), f"{n} calls saved, {memo_calls(m)} {name}")
                    r.probe([GF, F0, P1], src=d, memo=m)
                    outcomes.append(name)
                    break
                except Violation as e:
                    errors.append(f"{name}: {e.msg}")
            else:
                raise Violation(f"after a crash at instant {i} of {event} a new session finds neither the state before nor after: {errors}", "torn state")
        return {"outcome": (r.m.canon(), outcomes), "steps": len(snaps)}
    finally:
        Hooks.reset()
        for d in snaps:
            shutil.rmtree(d, ignore_errors=True)
        w.close()


class Fault(sqlite3.OperationalError):
    pass


def fault(item):
    """one SQL statement of the last event fails; afterwards the same session can do it,
    and new sessions find the same as without the fault"""
    start, event = item
    k, n, outcomes = 0, None, []
    while n is None or k < n:
        w = world(start)
        r = w.r
        try:
            rearm()
            r.load()
            before = r.m.clone()
            count = [0]

            def on_sql(ev, sql, conn):
                count[0] += 1
                if n is not None and count[0] - 1 == k:
                    raise Fault("injected: disk I/O error")
            failed = None
            if n is None:
                Hooks.on_sql = on_sql
                try:
                    w.apply(event)
                finally:
                    Hooks.reset()
                n = count[0]
                continue
            raw(r, event, on_sql, outcomes)
            check(Context.current_context is None, "a context is active after the block", "context left active")
            check(DecTracer.get_active_trace_obj() is None, "tracking goes on after the block", "tracer left active")
            check(not r.st._mode_stack, "modes left on the stack", "mode left on stack")
            # again, without the fault
            raw(r, event, None, None)
            model(w, event)
            n_db = calls_in_db(os.path.join(r.dir, "db.sqlite"))
            check(n_db == memo_calls(r.m), f"fault at statement {k} of {event}: {n_db} calls saved, expected {memo_calls(r.m)}", "calls lost")
            r.probe([GF, F0, P1])
            r.block([GF, F0, P1], "y")
        finally:
            Hooks.reset()
            w.close()
        k += 1
    return {"outcome": outcomes, "steps": n}


def raw(r, event, on_sql, outcomes):
    """the event on the real side only"""
    old, builtins.input = builtins.input, lambda *a: event[-1] if event[0] in "CS" else "y"
    Hooks.on_sql = on_sql
    try:
        with r.st:
            if event[0] == "C":
                def ev(c):
                    return r.real_op(c[0])(*[ev(a) if isinstance(a, tuple) else a for a in c[1]])
                ev(event[1:3])
        if outcomes is not None:
            outcomes.append("done")
    except Fault:
        if outcomes is None:
            raise
        outcomes.append("failed")
    finally:
        builtins.input = old
        Hooks.reset()
        P.LOG.clear()


def model(w, event):
    """the event on the side of the model only"""
    m, orc = w.r.m, w.r.oracle
    orc.memo, m.oracle = m, orc
    m.sync(event[-1])
    if event[0] == "C":
        def ev(c):
            return m.call(orc.ops[c[0]], tuple(ev(a) if isinstance(a, tuple) else a for a in c[1]))
        ev(event[1:3])
    orc.log.clear()


PARTS = {"crashes": crash, "faults": fault}


def run(ctx):
    E = lambda *ps: tuple(("va", p, v) for p, vs in ps for v in vs)
    probe = (GF, F0, P1)
    ctx.bfs("sessions and failures", LifeWorld, ctx.pick(4, 5), dict(project="life", answers="yna", calls=(F1, GF), probe=probe, edits=E(("leaf", (0, 1))), inspect=False,
        more=("open", "clear", "commit", "fail", "mid clear")))
    ctx.bfs("failing calls", LifeWorld, ctx.pick(4, 5), dict(project="life", answers="y", calls=(("bad", (1,)), P1), probe=probe + (("bad", (1,)),), edits=E(("leaf", (0, 1)), ("G", (0, 1))), inspect=False,
        more=("open", "fail", "mid commit")))
    ctx.bfs("unusual modules", LifeWorld, ctx.pick(4, 5), dict(project="life", answers="yn", calls=(("u", (1,)),), probe=(("u", (1,)), F0), edits=E(("U", (0, 1, 2)), ("odd", (0, 1, 2, 3))), inspect=False, sync=False,
        more=("open",)))
    ctx.bfs("deleting versions", LifeWorld, ctx.pick(4, 5), dict(project="life", answers="yn", calls=(F1, GF, P1)[ctx.quick and 0:], probe=probe, edits=E(("leaf", (0, 1)), ("g", (0, 1))), inspect=False, sync=False,
        more=("drop version", "open", "mid drop")))
    ctx.bfs("deleting calls", LifeWorld, ctx.pick(4, 5), dict(project="life", answers="yn", calls=(F1, GF, P1), probe=probe, edits=E(("leaf", (0, 2)),), inspect=False, sync=False,
        more=("drop call", "drop call only")))
    C = lambda c, a="y": ("C",) + c + (a,)
    starts = [(), (C(F1),), (C(GF), C(P1)), (C(GF), ("E", "va", "leaf", 1)), (C(GF), ("E", "va", "leaf", 1), C(F1), ("E", "va", "leaf", 0))]
    if not ctx.quick:
        starts += [s + (e,) for s in starts for e in (("E", "va", "G", 1), ("E", "va", "g", 1), ("E", "va", "leaf", 2))]
    events = [C(F1), C(GF), C(GF, "n"), C(P1), ("S", "y"), ("S", "n")]
    items = [(s, e) for s in starts for e in events]
    ctx.enumerate("faults", fault, items, 1, what="every SQL statement of the last event fails once")
    items += [(s, e) for s in starts for e in (("drop version", "f", (1,), 0), ("drop version", "g", (20,), 0)) if C(GF) in s] + [
        (s, ("drop call", *F1)) for s in starts if C(GF) in s and s[-1][0] != "E"]
    ctx.enumerate("crashes", crash, items, 1, what="every distinct state on disk during the last event")
