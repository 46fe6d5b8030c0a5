"""M05: crashes. While a program runs, what the process would leave behind if it died is
copied at every instant at which it differs: before and after every statement, commit,
rename and removal, and in the middle of every file write. Every copy is opened, compared
with what had been completed, and the program is run on it again; also crashing again."""
import os, shutil, builtins, io, itertools, hashlib, sqlite3
from ..core import Violation, rearm
from ..world import check, Hooks
from .. import world as W
from ..prog import Run, contents, complete, steps_of, Scratch, O
from mandala.imports import Storage
from mandala.model import Context

LEVEL = "crash_enumeration"
BOUNDS = "every distinct on-disk state at the instants of every program of the stated length; torn writes of value files at the stated points; a second crash during recovery in the thorough run"
ASSUMPTIONS = ["the process dies, the machine does not: what was handed to the operating system stays",
               "SQLite's own commit is atomic (its files are copied between its calls, and with the log cut short)"]

_open, _replace, _rename, _remove, _unlink = builtins.open, os.replace, os.rename, os.remove, os.unlink


class Recorder:
    """calls snap() at every instant at which the process may die"""
    def __init__(self, root, snap):
        self.root, self.snap, self.on = root, snap, True

    def mine(self, p):
        return self.on and isinstance(p, (str, os.PathLike)) and os.fspath(p).startswith(self.root)

    def sql(self, event, sql, conn):
        if self.on and not sql.lstrip().upper().startswith(("SELECT", "PRAGMA DATABASE_LIST")):
            self.snap("before " + (" ".join(sql.split()[:3]) or event))

    def connect(self, path):
        if self.on:
            self.snap("before connecting")

    def opened(self, file, mode="r", *a, **kw):
        f = _open(file, mode, *a, **kw)
        if self.mine(file) and any(c in mode for c in "wax+"):
            self.snap("after opening a file")
            return TornFile(f, self)
        return f

    def two(self, fn, name):
        def g(a, b, **kw):
            if self.mine(b):
                self.snap("before " + name)
            r = fn(a, b, **kw)
            if self.mine(b):
                self.snap("after " + name)
            return r
        return g

    def one(self, fn, name):
        def g(a, **kw):
            if self.mine(a):
                self.snap("before " + name)
            r = fn(a, **kw)
            if self.mine(a):
                self.snap("after " + name)
            return r
        return g

    def install(self):
        Hooks.on_sql, Hooks.on_connect = self.sql, self.connect
        builtins.open = io.open = self.opened
        os.replace, os.rename = self.two(_replace, "replace"), self.two(_rename, "rename")
        os.remove, os.unlink = self.one(_remove, "remove"), self.one(_unlink, "unlink")

    @staticmethod
    def undo():
        Hooks.reset()
        builtins.open = io.open = _open
        os.replace, os.rename, os.remove, os.unlink = _replace, _rename, _remove, _unlink


class TornFile:
    def __init__(self, f, rec):
        self.__dict__.update(_f=f, _rec=rec)

    def write(self, data):
        n = len(data)
        if n > 1 and not isinstance(data, str):
            data = bytes(data)
            cuts = sorted({1, n // 2, n - 1})
            prev = 0
            for c in cuts:
                self._f.write(data[prev:c])
                self._f.flush()
                self._rec.snap("in a file write")
                prev = c
            self._f.write(data[prev:])
        else:
            self._f.write(data)
        self._f.flush()
        self._rec.snap("after a file write")
        return n

    def __getattr__(self, k):
        return getattr(self._f, k)

    def __setattr__(self, k, v):
        setattr(self._f, k, v)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        return self._f.__exit__(*a)

    def __iter__(self):
        return iter(self._f)


def files(root):
    """the files a new process would find"""
    res = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            if not f.endswith("-shm"):
                p = os.path.join(d, f)
                with _open(p, "rb") as h:
                    res[os.path.relpath(p, root)] = h.read()
    return res


def key_of(fs):
    h = hashlib.sha1()
    for k in sorted(fs):
        if k.endswith(".tmp"):
            h.update(b"tmp")
        else:
            h.update(k.encode())
        h.update(hashlib.sha1(fs[k]).digest())
    return h.hexdigest()


def logical(fs):
    """the same up to the random numbers in SQLite's log"""
    d = Scratch.new()
    try:
        put(fs, d)
        h = hashlib.sha1()
        if "db.sqlite" in fs:
            c = W._real_connect(os.path.join(d, "db.sqlite"))
            try:
                for (t,) in c.execute("select name from sqlite_master where type='table' order by name").fetchall():
                    h.update(repr((t, sorted(c.execute(f"select * from {t}").fetchall()))).encode())
                h.update(repr(c.execute("pragma journal_mode").fetchall()).encode())
            except sqlite3.Error as e:
                h.update(repr(e).encode())
            c.close()
        for k in sorted(fs):
            if k.endswith(".joblib") or not k.startswith("db.sqlite"):
                h.update((".tmp" if k.endswith(".tmp") else k).encode() + hashlib.sha1(fs[k]).digest())
        return h.hexdigest()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def put(fs, root):
    for k, b in fs.items():
        p = os.path.join(root, k)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with _open(p, "wb") as h:
            h.write(b)


def plainly(word, ov):
    """-> for each step the calls on disk after it; the results; the final contents"""
    r = Run(word, ov)
    after = []
    try:
        while r.i < len(r.steps):
            r.step(r.steps[r.i])
            after.append(complete(contents(r.fresh())) if r.steps[r.i][0] in ("out", "commit", "drop", "dropin", "clean", "open") else after[-1])
            r.i += 1
        vals = [[(x.hid, repr(r.st.unwrap(x))) for x in m] for m in r.made]
        return after, vals
    finally:
        r.close()


def crashes(word, ov, start=None, last=0, cut=False):
    """runs the program on the files `start`; -> distinct (files, step, instant) while it runs"""
    r = Run(word, ov)
    if start:
        put(start, r.dir)
    seen, out = set(), []

    def snap(what):
        rec.on = False
        try:
            if r.i >= last:
                fs = files(r.dir)
                for variant in ([fs] + (cut_log(fs) if cut else [])):
                    k = (key_of(variant), r.i)
                    if k not in seen:
                        seen.add(k)
                        out.append((variant, r.i, what if variant is fs else what + ", log cut short"))
        finally:
            rec.on = True
    rec = Recorder(r.dir, snap)
    try:
        rec.install()
        while r.i < len(r.steps):
            r.step(r.steps[r.i])
            snap("after the step")
            r.i += 1
        return out
    finally:
        rec.undo()
        r.close()


def cut_log(fs):
    """the write-ahead log cut in the last frame: SQLite has to ignore it"""
    res = []
    for k, b in fs.items():
        if k.endswith("-wal") and len(b) > 100:
            res.append({**fs, k: b[:-1]})
    return res


def recover(word, ov, fs, i, what, after, vals, label, ended=None):
    """is what a crash left as it should be?"""
    rearm()
    r = Run(word, ov)
    put(fs, r.dir)
    try:
        st = r.fresh()
        found = complete(contents(st))
        prev = after[i - 1] if i else {}
        allowed = [prev, after[i]] if ended is None else ended
        if "log cut" in what:
            allowed = after[:i + 1]
        check(any(found == a for a in allowed), lambda: f"{label}: found the calls {sorted(c[0] for c in found.values())}, completed were "
              f"{sorted(c[0] for c in prev.values())}, at the end of this step {sorted(c[0] for c in after[i].values())}", f"state {r.steps[i][0]}")
        # again, from the start
        for s in r.steps:
            if s[0] not in ("drop", "clean", "dropin"):
                r.step(s)
            r.i += 1
        got = [[(x.hid, repr(r.st.unwrap(x))) for x in m] for m in r.made]
        check(got == vals, lambda: f"{label}: run again it gives other results: {got} instead of {vals}", "results again")
        final = complete(contents(r.fresh()))
        return found, final
    except Violation:
        raise
    except Exception as e:
        if not isinstance(e, (MemoryError,)):
            import traceback
            raise Violation(f"{label}: {type(e).__name__}: {e}\n{traceback.format_exc(limit=-4)}", f"exc {type(e).__name__} {r.steps[min(i, len(r.steps) - 1)][0]}")
        raise
    finally:
        r.close()


def full_end(word, ov):
    """the calls there in the end if nothing is deleted"""
    r = Run("".join(c for c in word if c not in "DEC"), ov)
    try:
        r.all()
        return complete(contents(r.fresh()))
    finally:
        r.close()


def once(item):
    word, ov, second = item[:3]
    share, shares = item[3:] or (0, 1)
    after, vals = plainly(word, ov)
    rearm()
    end = full_end(word, ov) if "G" not in word else None
    last = 0
    if len(word) > 1:
        last = len(steps_of(word[:-1]))       # earlier crashes are those of shorter programs
    rearm()
    points = crashes(word, ov, last=last, cut=second)
    n = 0
    states, seen2 = set(), set()
    for fs, i, what in points[share::shares]:
        label = f"program {word}{'' if ov is None else ', large values in files'}, step {i} {steps_of(word)[i]}, crash {what}"
        found, final = recover(word, ov, fs, i, what, after, vals, label)
        if end is not None:
            check(final == end, lambda: f"{label}: after running again, {len(final)} calls, expected {len(end)}", "end")
        states.add((i, tuple(sorted(found)), key_of(fs) if len(fs) < 3 else len(fs)))
        n += 1
        if second and not any(c in word for c in "DECG"):
            rearm()
            for fs2, i2, what2 in crashes(word, ov, start=fs):
                # what was completed before the first crash must still be there
                l2 = f"{label}; run again, step {i2} {steps_of(word)[i2]}, crash {what2}"
                n += 1
                k2 = (logical(fs2), i2, tuple(sorted(found)))
                if k2 in seen2:
                    continue
                seen2.add(k2)
                ok = [{**found, **(after[i2 - 1] if i2 else {})}, {**found, **after[i2]}]
                rearm()
                recover(word, ov, fs2, i2, what2, after, vals, l2, ended=ok)
    return {"outcome": (word, ov, sorted(map(repr, states))), "steps": n}


PARTS = {"crash": once, "crash twice": once}


def programs(n):
    first = "AWBMNSG"
    rest = "AWBMNSGDECKRP"
    for w in itertools.product(first, *[rest] * (n - 1)):
        yield "".join(w)


def run(ctx):
    ovs = (None, 0.001, 0)
    what = "programs of %s, every instant of the last"
    ctx.enumerate("crash/one", once, [(w, ov, False) for w in programs(1) for ov in ovs], chunksize=1, what=what % "one step")
    two = programs(2)
    ctx.enumerate("crash/two", once, [(w, ov, False) for w in two for ov in ovs], chunksize=1, what=what % "two steps")
    three = programs(3)
    if not ctx.quick:
        ctx.enumerate("crash/three", once, [(w, ov, False) for w in three for ov in ovs], chunksize=1, what=what % "three steps")
    words = ("B", "A", "S") if ctx.quick else ("A", "B", "S", "M", "W", "N", "BA", "BB", "MB")
    n = 8
    ctx.enumerate("crash twice", once, [(w, ov, True, k, n) for w in words for ov in (ovs if not ctx.quick else ovs[1:2] if w != "S" else ovs[:1]) for k in range(n)],
                  chunksize=1, what="a second crash while running again; logs cut short")
