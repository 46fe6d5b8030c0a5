"""Loading the code under test and closing it off: SQL hooks, stubbed sleeping,
silenced output; shared helpers."""
import os, sys, io, logging, sqlite3, time, builtins, collections

from .core import REPO, Violation, Scratch, Hang

_real_connect = sqlite3.connect
real_sleep = time.sleep


class Hooks:
    """the seams of the environment: an explorer sets these"""
    on_sql = None        # on_sql(event, sql, conn): may raise
    on_connect = None    # before a connection is made
    on_sleep = None
    on_locked = None     # on_locked(error) -> True to try again
    timeout = None       # SQLite's own waiting time
    sleeps = 0

    @classmethod
    def reset(cls):
        cls.on_sql = cls.on_connect = cls.on_sleep = cls.on_locked = cls.timeout = None
        cls.sleeps = 0


def _again(fn, *a):
    """runs a statement, again and again while the database is locked and the explorer says so"""
    while True:
        try:
            return fn(*a)
        except sqlite3.OperationalError as e:
            if Hooks.on_locked is None or "locked" not in str(e) or not Hooks.on_locked(e):
                raise


class HookConn(sqlite3.Connection):
    def execute(self, sql, *a):
        if Hooks.on_sql:
            Hooks.on_sql("execute", sql, self)
        return _again(super().execute, sql, *a)

    def executemany(self, sql, *a):
        if Hooks.on_sql:
            Hooks.on_sql("execute", sql, self)
        return super().executemany(sql, *a)

    def cursor(self, factory=None):
        return super().cursor(HookCursor)

    def commit(self):
        if Hooks.on_sql:
            Hooks.on_sql("commit", "", self)
        _again(super().commit)

    def __exit__(self, et, ev, tb):
        if et is None and Hooks.on_sql and self.in_transaction:
            try:
                Hooks.on_sql("commit", "", self)
            except BaseException:
                self.rollback()
                raise
        return super().__exit__(et, ev, tb)


class HookCursor(sqlite3.Cursor):
    def execute(self, sql, *a):
        if Hooks.on_sql:
            Hooks.on_sql("execute", sql, self.connection)
        return _again(super().execute, sql, *a)


def _connect(*a, **kw):
    if Hooks.on_connect:
        Hooks.on_connect(a[0] if a else kw.get("database"))
    kw.setdefault("factory", HookConn)
    if Hooks.timeout is not None:
        kw["timeout"] = Hooks.timeout
    return _real_connect(*a, **kw)


def _sleep(t):
    Hooks.sleeps += 1
    if Hooks.on_sleep:
        return Hooks.on_sleep(t)
    if Hooks.sleeps > 200:
        raise Hang("sleeps again and again")


_loaded = False


def load():
    global _loaded
    if _loaded:
        return
    _loaded = True
    sys.path.insert(0, REPO)
    sqlite3.connect = _connect
    sqlite3.dbapi2.connect = _connect
    time.sleep = _sleep
    import mandala.imports
    import mandala
    where = os.path.realpath(mandala.__file__ or list(mandala.__path__)[0])
    assert where.startswith(os.path.realpath(REPO)), where
    logging.disable(logging.CRITICAL)


def quiet(stdout=True):
    logging.disable(logging.CRITICAL)
    builtins.input = _no_input
    if stdout:
        sys.stdout = open(os.devnull, "w")
    sys.setrecursionlimit(2000)


def _no_input(*a):
    raise Violation("the user was asked a question that no history here should cause", "unexpected question")


def check(cond, msg, sig=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, sig)
