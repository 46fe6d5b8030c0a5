"""Small programs over a storage, for the checks that interrupt them: a program is a
sequence of steps; it is run undisturbed once, and that run is what the disturbed
ones are compared with."""
import os, shutil, sqlite3, builtins, io, joblib
from .core import Scratch, Violation
from . import world as W
from .world import check, Hooks
W.load()
from mandala.imports import Storage
from mandala.model import Context, Ref, wrap_atom
from .store import reset_globals
from . import ops as O

# blocks of calls; ("r", i) is the result of the i-th call made so far
# names: i inc, b big, m list, t its sum, s size
STEPS = {
    "A": [("in",), ("c", "inc", 0), ("out",)],
    "W": [("in",), ("c", "two", 0, 1), ("c", "inc", ("r", -1)), ("out",)],
    "B": [("in",), ("c", "big", 0), ("c", "size", ("r", -1)), ("out",)],
    "M": [("in",), ("c", "mk", 0), ("c", "tot", ("r", -1)), ("out",)],
    "N": [("in",), ("c", "nest", 1), ("out",)],
    "S": [("in",), ("c", "mkd", 1), ("commit",), ("c", "totd", ("r", -1)), ("out",)],
    "D": [("drop", 0, False)],
    "E": [("drop", 0, True)],
    "G": [("in",), ("c", "inc", 0), ("c", "inc", 1), ("dropin", "inc", 0), ("c", "inc", 2), ("out",)],
    "C": [("clean",)],
    "K": [("clear",)],
    "R": [("open",)],
    "P": [("preload",)],
}


def steps_of(word):
    return [("open",)] + [s for ch in word for s in STEPS[ch]]


class Run:
    def __init__(self, word, ov=None, where=None, file=True):
        reset_globals()
        self.word, self.ov, self.file = word, ov, file
        self.own = where is None
        self.dir = where or Scratch.new()
        self.steps = steps_of(word)
        self.st = None
        self.refs = []       # first output of each call step
        self.made = []       # (op, args as raw values)
        self.i = 0
        self.open_block = False

    @property
    def path(self):
        return os.path.join(self.dir, "db.sqlite") if self.file else ":memory:"

    def kw(self):
        return {} if self.ov is None else dict(overflow_dir=os.path.join(self.dir, "ov"), overflow_threshold_MB=self.ov)

    def fresh(self):
        return Storage(db_path=self.path, **self.kw())

    def arg(self, a):
        return self.refs[a[1]] if isinstance(a, tuple) else a

    def step(self, s):
        k = s[0]
        if k == "open":
            self.st = self.fresh()
        elif k == "in":
            self.st.__enter__()
            self.open_block = True
        elif k == "c":
            t = O.TABLE[s[1]]
            args = [self.arg(a) for a in s[2:]]
            res = t[0](*args)
            res = res if isinstance(res, tuple) else (res,)
            self.refs.append(res[0])
            self.made.append(res)
        elif k == "commit":
            self.st.commit()
        elif k == "out":
            self.open_block = False
            self.st.__exit__(None, None, None)
        elif k == "drop":
            if s[1] < len(self.refs):
                c = self.st.get_ref_creator(self.refs[s[1]])
                if c is not None:
                    # also as an iterator, which can be consumed only once
                    self.st.drop_calls(iter([c.hid]) if s[2] else [c.hid], delete_dependents=s[2])
        elif k == "dropin":
            hid = O.TABLE[s[1]][0].get_call_history_id({"x": wrap_atom(s[2])})
            self.st.drop_calls([hid], delete_dependents=True)
        elif k == "clean":
            self.st.cleanup_refs()
        elif k == "clear":
            self.st.clear_cache()
        elif k == "preload":
            self.st.preload(lazy=False)
        else:
            raise AssertionError(s)

    def all(self):
        while self.i < len(self.steps):
            self.step(self.steps[self.i])
            self.i += 1

    def close(self):
        Context.current_context = None
        try:
            self.st.db._conn.close()
        except Exception:
            pass
        self.st = None
        if self.own:
            shutil.rmtree(self.dir, ignore_errors=True)


def plain(st, r):
    return st.unwrap(r)


def contents(st):
    """what a storage holds, through its own interface: every call with the values of its
    inputs and outputs (all must be readable), and every readable reference"""
    df = st.call_storage.get_df().reset_index()
    calls = {}
    for h in sorted(set(df.call_history_id)):
        c = st.get_call(h, lazy=False)
        calls[h] = (c.op.name, c.cid, tuple(sorted((k, r.hid, r.cid, repr(st.unwrap(r))) for k, r in c.inputs.items())),
                    tuple(sorted((k, r.hid, r.cid, repr(st.unwrap(r))) for k, r in c.outputs.items())))
    return calls


def complete(calls):
    """is what contents() found as it should be: every row of a call there"""
    for h, (op, cid, ins, outs) in calls.items():
        if op in O.TABLE:
            t = O.TABLE[op]
            check([k for k, *_ in ins] == sorted(t[2]), lambda: f"call of {op} has the inputs {[k for k, *_ in ins]}", "call inputs missing")
            check([k for k, *_ in outs] == sorted(t[5]), lambda: f"call of {op} has the outputs {[k for k, *_ in outs]}", "call outputs missing")
    return calls
