"""M06: refused writes. Small programs are run once undisturbed; then once for every
statement, commit, connection and file write in them, with that one refused."""
import os, errno, sqlite3, builtins, io, itertools
from ..core import Violation, rearm
from ..world import check, Hooks
from .. import world as W
from ..prog import Run, contents, complete, steps_of
from mandala.imports import Storage
from mandala.model import Context

LEVEL = "fault_enumeration"
BOUNDS = "every database statement, commit, connection and file write of every program of the stated length, refused in each of the stated ways"

KINDS = ("once", "rolled back", "stuck", "hard", "interrupt")
_open = builtins.open


class Faults:
    """counts the events of one step and refuses those it is told to"""
    def __init__(self):
        self.on = False
        self.n = 0
        self.at = None
        self.kind = None
        self.fired = 0
        self.names = []
        self.dir = None

    def start(self, at=None, kind=None):
        self.on, self.n, self.at, self.kind, self.fired, self.names = True, 0, at, kind, 0, []

    def stop(self):
        self.on = False

    def hit(self, name):
        if not self.on:
            return False
        i = self.n
        self.n += 1
        if self.at is None:
            self.names.append(name)
            return False
        if i == self.at:
            self.fired, self.first = self.fired + 1, name
            return True
        # nothing can be written any more
        if self.kind == "stuck" and i > self.at and (name == self.first or not name.lower().startswith(("select", "pragma", "connect", "with"))):
            self.fired += 1
            return True
        return False

    def sql(self, event, sql, conn):
        name = "commit" if event == "commit" else " ".join(sql.split()[:3])
        if self.hit(name):
            if self.kind == "rolled back" and conn.in_transaction:
                conn.rollback()
            if self.kind == "hard":
                raise sqlite3.DatabaseError("refused here")
            if self.kind == "interrupt":
                raise KeyboardInterrupt()
            raise sqlite3.OperationalError("disk I/O error (refused here)")

    def connect(self, path):
        if self.hit("connect"):
            if self.kind == "interrupt":
                raise KeyboardInterrupt()
            raise sqlite3.OperationalError("unable to open database file (refused here)")

    def opened(self, file, mode="r", *a, **kw):
        f = _open(file, mode, *a, **kw)
        if self.on and isinstance(file, (str, os.PathLike)) and any(c in mode for c in "wax+") and os.fspath(file).startswith(self.dir):
            return FaultyFile(f, self)
        return f


class FaultyFile:
    def __init__(self, f, faults):
        self.__dict__.update(_f=f, _faults=faults)

    def write(self, data):
        if self._faults.hit("file write"):
            self._f.write(bytes(data)[:len(data) // 2] if not isinstance(data, str) else data[:len(data) // 2])
            self._f.flush()
            if self._faults.kind == "interrupt":
                raise KeyboardInterrupt()
            raise OSError(errno.ENOSPC, "No space left on device (refused here)")
        return self._f.write(data)

    def __getattr__(self, k):
        return getattr(self._f, k)

    def __setattr__(self, k, v):
        setattr(self._f, k, v)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        return self._f.__exit__(*a)

    def __iter__(self):
        return iter(self._f)


F = Faults()


def setup(run):
    F.dir = run.dir
    Hooks.on_sql = F.sql
    Hooks.on_connect = F.connect
    builtins.open = io.open = F.opened


def undo():
    F.stop()
    Hooks.reset()
    builtins.open = io.open = _open


def disk(run):
    """what is in the database: text columns of all tables, and the values behind them"""
    on, F.on = F.on, False
    try:
        conn = run.st.db._conn if not run.file else W._real_connect(run.path)
        if run.file:
            conn.isolation_level = None
        tables = [r[0] for r in conn.execute("select name from sqlite_master where type='table'")]
        res = {}
        for t in sorted(tables):
            rows = conn.execute(f"select * from {t}").fetchall()
            res[t] = sorted(tuple(x for x in r if not isinstance(x, bytes)) for r in rows)
        if run.file:
            conn.close()
        return res
    finally:
        F.on = on


_clean = {}


def clean(word, ov, file):
    key = (word, ov, file)
    if key in _clean:
        return _clean[key]
    r = Run(word, ov, file=file)
    setup(r)
    trace = []
    try:
        while r.i < len(r.steps):
            before = disk(r) if r.st is not None and (file or r.st) else {}
            F.start()
            r.step(r.steps[r.i])
            F.stop()
            trace.append((list(F.names), before, disk(r)))
            r.i += 1
        vals = [[r.st.unwrap(x) if x.in_memory else None for x in m] for m in r.made]
        ids = [[(x.hid, x.cid) for x in m] for m in r.made]
        fin = complete(contents(r.fresh())) if file else None
        _clean.clear()
        _clean[key] = (trace, vals, ids, fin)
        return _clean[key]
    finally:
        undo()
        r.close()


def agrees(a, b, loose=False):
    """loose: a call that was interrupted may have left references no call refers to"""
    if a == b:
        return True
    if not loose or set(a) != set(b):
        return False
    return all(set(b[t]) <= set(a[t]) if t in ("shapes", "atoms") else a[t] == b[t] for t in a)


def differs(a, b):
    out = []
    for t in sorted(set(a) | set(b)):
        x, y = a.get(t, []), b.get(t, [])
        if x != y:
            out.append(f"{t}: {len(x)} rows, expected {len(y)}; missing {[r[:2] for r in y if r not in x][:3]} extra {[r[:2] for r in x if r not in y][:3]}")
    return "; ".join(out)


def same_values(r, vals, ids, where):
    for m, vs, hs in zip(r.made, vals, ids):
        for x, v, h in zip(m, vs, hs):
            check((x.hid, x.cid) == h, lambda: f"{where}: other ids than undisturbed", "other ids")
            if v is not None and x.in_memory:
                got = r.st.unwrap(x)
                check(got == v, lambda: f"{where}: a result reads {got!r} instead of {v!r}", "other value")


def trace_step(word, i):
    return steps_of(word)[i][0]


def one(item):
    word, ov, file, kind, which, half = item
    retry = True
    trace, vals, ids, fin = clean(word, ov, file)
    first = len(steps_of(word[:-1])) if which == "last" and len(word) > 1 else 0
    flat = [(i, k) for i, (names, _, _) in enumerate(trace) if i >= first for k in range(len(names))]
    states = []
    for i, k in flat[half::2]:
        name = trace[i][0][k]
        if which == "writes" and kind in ("rolled back", "hard", "stuck") and trace_step(word, i) == "c":
            continue
        if name == "file write" and kind not in ("once", "interrupt", "stuck"):
            continue
        rearm()
        r = Run(word, ov, file=file)
        setup(r)
        label = f"program {word}, step {i} {r.steps[i]}, {name} ({k}) refused, {kind}"
        try:
            while r.i < i:
                r.step(r.steps[r.i])
                r.i += 1
            s = r.steps[i]
            err = None
            F.start(k, kind)
            try:
                r.step(s)
            except (sqlite3.Error, OSError, KeyboardInterrupt) as e:
                err = e
            except Exception as e:
                raise Violation(f"{label}: unexpected {type(e).__name__}: {e}", f"other error {s[0]}")
            fired = F.fired
            F.stop()
            if not fired:
                raise Violation(f"{label}: the event did not occur again", "not repeatable")
            if s[0] == "out":
                check(Context.current_context is None, f"{label}: a context is still active", "context active")
            now = disk(r) if r.st is not None else {}
            if err is None:
                check(now == trace[i][2], lambda: f"{label}: no error, but on disk: {differs(now, trace[i][2])}", f"silent {s[0]}")
            elif s[0] == "clean":    # removes only what nothing refers to, and may stop on the way
                check(agrees(now, trace[i][2], True) and agrees(trace[i][1], now, True), lambda: f"{label}: on disk: "
                      f"{differs(now, trace[i][1])}", "cleanup")
            elif s[0] not in ("open",):
                check(now in (trace[i][1], trace[i][2]), lambda: f"{label}: on disk neither the state before nor after: "
                      f"{differs(now, trace[i][2])}", f"mixture {s[0]}")
            states.append((s, name, kind, err is None, now == trace[i][2]))
            if file and s[0] != "open":
                complete(contents(r.fresh()))
            if r.st is not None:
                same_values(r, vals, ids, f"{label}: in the session afterwards")
            if err is not None and retry:
                try:
                    if s[0] == "out":
                        with r.st:
                            pass
                    elif s[0] in ("drop",):
                        r.step(s)
                    else:
                        r.step(s)
                except Exception as e:
                    raise Violation(f"{label}: repeating the operation fails with {type(e).__name__}: {e}", f"repeat {s[0]}")
                now = disk(r)
                check(agrees(now, trace[i][2], s[0] == "c"), lambda: f"{label}: after repeating the operation, on disk: {differs(now, trace[i][2])}", f"repeated {s[0]}")
            r.i += 1
            try:
                r.all()
            except Exception as e:
                raise Violation(f"{label}: a later step {r.steps[r.i]} fails with {type(e).__name__}: {e}", f"later {s[0]}")
            same_values(r, vals, ids, f"{label}: at the end")
            now = disk(r)
            check(agrees(now, trace[-1][2], s[0] == "c"), lambda: f"{label}: at the end, on disk: {differs(now, trace[-1][2])}", f"end {s[0]}")
            if file:
                end = complete(contents(r.fresh()))
                check(end == fin, lambda: f"{label}: at the end other calls or values", f"end values {s[0]}")
        finally:
            undo()
            r.close()
    return {"outcome": (word, ov, file, kind, states), "steps": len(flat[half::2])}


PARTS = {"refused": one}


def programs(n):
    first = "AWBMNSG"
    rest = "AWBMNSGDECKRP"
    for w in itertools.product(first, *[rest] * (n - 1)):
        yield "".join(w)


CONFIGS = ((None, True), (0.001, True), (None, False))


def items(words, kinds, which, configs=CONFIGS):
    for w in words:
        for ov, file in configs:
            if "R" in w and not file:
                continue
            for kind in kinds:
                for half in (0, 1):
                    yield (w, ov, file, kind, which, half)


def run(ctx):
    what = "every event of programs of %s, refused in %d ways"
    ctx.enumerate("refused/one", one, items(programs(1), KINDS, ctx.pick("writes", "all")), chunksize=1, what=what % ("one step", len(KINDS)))
    if ctx.quick:
        two = [w for w in programs(2) if w[0] in "BS" and w[1] in "ABSDECRP"]
        two += ["SEC", "BEC"]
        ctx.enumerate("refused/two", one, items(two, ("once", "hard"), "last", CONFIGS[1:]), chunksize=1, what=what % ("two steps (the last one's)", 2))
    else:
        ctx.enumerate("refused/two", one, items(programs(2), KINDS, "last"), chunksize=1, what=what % ("two steps (the last one's)", len(KINDS)))
        three = [w for w in programs(3) if w[0] in "BS" and w[1] in "ABSDECR" and w[2] in "ASDECR"]
        ctx.enumerate("refused/three", one, items(three, ("once", "hard"), "last"), chunksize=1, what=what % ("three steps (the last one's)", 2))
