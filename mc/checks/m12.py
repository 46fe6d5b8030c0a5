"""M12: contexts and modes. Every well-nested program of run blocks, no-op regions,
nested calls, exceptions and commits up to a size is run on real storages next to an
interpreter of the intended semantics."""
import collections, os, shutil
from ..core import Violation, Scratch
from ..world import check, Hooks
from .. import world as W
W.load()
from mandala.imports import Storage, op, noop
from mandala.model import Context, Ref

LEVEL = "model_checking"
BOUNDS = "all programs with at most the stated number of statements and blocks, per alphabet"

RUNS = collections.Counter()
CUR = {}


class E(Exception):
    pass


class Stop(BaseException):
    pass


@op
def inc(x):
    RUNS["inc", x] += 1
    return x + 1


@op
def fails(x):
    RUNS["fails", x] += 1
    raise E()


@op
def stops(x):
    RUNS["stops", x] += 1
    raise Stop()


@op
def outer(x):
    RUNS["outer", x] += 1
    inc(x)
    return x + 10


@op
def outer_noop(x):
    RUNS["outer_noop", x] += 1
    with noop():
        v = inc(x)
        assert not isinstance(v, Ref)
    inc(x + 5)
    return v + 10


@op
def outer_fails(x):
    RUNS["outer_fails", x] += 1
    inc(x)
    raise E()


@op
def noop_fails(x):
    RUNS["noop_fails", x] += 1
    with noop():
        inc(x)
        raise E()


@op
def swallow(x):
    RUNS["swallow", x] += 1
    try:
        with noop():
            fails(x)
    except E:
        pass
    inc(x)
    return x + 20


@op
def reenter(x):
    RUNS["reenter", x] += 1
    with CUR["A"]:
        inc(x)
    return x + 30


OPS = {"inc": inc, "fails": fails, "stops": stops, "outer": outer, "outer_noop": outer_noop, "outer_fails": outer_fails,
       "noop_fails": noop_fails, "swallow": swallow, "reenter": reenter}
LEAVES = {"i": ("inc", 0), "i1": ("inc", 1), "f": ("fails", 0), "k": ("stops", 0), "o": ("outer", 0), "on": ("outer_noop", 0),
          "of": ("outer_fails", 0), "nf": ("noop_fails", 0), "s": ("swallow", 0), "re": ("reenter", 0)}
BLOCKS = ("A", "N", "n", "B", "try")
ENDS = ("raise", "stop")


class Interp:
    """what should happen"""
    def __init__(self):
        self.stack = []             # contexts that are open: (storage, mode)
        self.saved = {"A": {}, "B": {}}
        self.durable = {"A": set(), "B": set()}
        self.runs = collections.Counter()

    def mode_of(self, s):
        ms = [m for t, m in self.stack if t == s]
        return ms[-1] if ms else "run"

    def push(self, s, mode):
        self.stack.append((s, mode))

    def pop(self):
        s, _ = self.stack.pop()
        if not any(t == s for t, _ in self.stack):
            self.commit(s)

    def commit(self, s):
        self.durable[s] |= set(self.saved[s])

    def call(self, name, x):
        """-> (value, memoized?)"""
        if not self.stack or self.stack[-1][1] == "noop":
            return self.body(name, x), False
        s = self.stack[-1][0]
        if (name, x) not in self.saved[s]:
            v = self.body(name, x)
            self.saved[s][name, x] = v
        return self.saved[s][name, x], True

    def region(self, x, f):
        if self.stack:
            self.push(self.stack[-1][0], "noop")
            try:
                f()
            finally:
                self.pop()
        else:
            f()

    def body(self, name, x):
        self.runs[name, x] += 1
        if name == "inc":
            return x + 1
        if name == "fails":
            raise E()
        if name == "stops":
            raise Stop()
        if name == "outer":
            self.call("inc", x)
            return x + 10
        if name == "outer_noop":
            self.region(x, lambda: self.call("inc", x))
            self.call("inc", x + 5)
            return x + 11
        if name == "outer_fails":
            self.call("inc", x)
            raise E()
        if name == "noop_fails":
            def f():
                self.call("inc", x)
                raise E()
            self.region(x, f)
        if name == "swallow":
            try:
                self.region(x, lambda: self.call("fails", x))
            except E:
                pass
            self.call("inc", x)
            return x + 20
        if name == "reenter":
            self.push("A", self.mode_of("A"))
            try:
                self.call("inc", x)
            finally:
                self.pop()
            return x + 30


class Run:
    def __init__(self, prog, form="with"):
        Context.current_context = None
        Hooks.reset()
        RUNS.clear()
        self.dir = Scratch.new()
        self.names = "AB" if has(prog, "B") else "A"
        self.st = {s: self.open(s) for s in self.names}
        CUR.clear()
        CUR.update(self.st)
        self.m = Interp()
        self.prog = prog
        self.log = []
        self.steps = 0

    def open(self, s):
        return Storage(db_path=os.path.join(self.dir, s + ".db"))

    def see(self, where):
        m = self.m
        self.steps += 1
        act = Context.current_context
        want = m.stack[-1][0] if m.stack else None
        got = None if act is None else [s for s in self.names if self.st[s] is act.storage]
        got = got[0] if got else None
        check(got == want, lambda: f"{where}: active storage is {got}, expected {want}", "active storage")
        for s in self.names:
            check(self.st[s].mode == m.mode_of(s), lambda: f"{where}: mode of {s} is {self.st[s].mode}, expected {m.mode_of(s)}", "mode")
        check(RUNS == m.runs, lambda: f"{where}: bodies ran {dict(RUNS)}, expected {dict(m.runs)}", "runs")
        self.log.append((want, m.mode_of("A"), m.mode_of("B")))

    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        m = self.m
        if isinstance(s, tuple):
            kind, body = s
            if kind == "try":
                try:
                    self.block(body)
                except E:
                    pass
                self.see("after a handler")
                return
            if kind == "n":
                t = m.stack[-1][0]
                cm, ctx = noop(), (t, "noop")
            elif kind == "N":
                cm, ctx = self.st["A"](mode="noop"), ("A", "noop")
            else:
                cm, ctx = self.st[kind], (kind, m.mode_of(kind))
            inner = None
            try:
                with cm as got:
                    m.push(*ctx)
                    try:
                        check(got is self.st[ctx[0]], "the block yields another object", "yields")
                        self.see(f"entering {kind}")
                        self.block(body)
                    except BaseException as e:
                        inner = e
                        raise
                    finally:
                        m.pop()
            except BaseException as e:
                if inner is None and not isinstance(e, Violation):
                    raise
                check(e is inner or isinstance(e, Violation), f"leaving a block turned {inner!r} into {e!r}", "exception replaced")
                self.see(f"leaving {kind} by an exception")
                raise
            check(inner is None, "an exception was swallowed by a block", "swallowed")
            self.see(f"leaving {kind}")
            return
        if s == "raise":
            raise E()
        if s == "stop":
            raise Stop()
        if s == "c":
            self.st["A"].commit()
            m.commit("A")
            self.see("commit")
            return
        name, x = LEAVES[s]
        exp = exc = None
        try:
            exp = m.call(name, x)
        except (E, Stop) as e:
            exc = e
        try:
            v = OPS[name](x)
        except (E, Stop) as e:
            check(type(e) is type(exc), lambda: f"{name}({x}) raised {type(e).__name__}", "raised")
            self.see(f"{name} raised")
            raise
        check(exc is None, lambda: f"{name}({x}) returned {v!r} but the function raises", "did not raise")
        val, ref = exp
        check(isinstance(v, Ref) == ref, lambda: f"{name}({x}) gave {v!r}; memoized: {ref}", "kind of result")
        if ref:
            s_ = m.stack[-1][0]
            v = self.st[s_].unwrap(v)
        check(type(v) is int and v == val, lambda: f"{name}({x}) = {v!r}, expected {val}", "value")
        self.see(f"after {name}")

    def run(self):
        try:
            try:
                self.block(self.prog)
            except (E, Stop):
                pass
            check(not self.m.stack, "model error")
            self.see("at the end")
            # outside, functions are plain
            before = RUNS["inc", 0]
            check(inc(0) == 1 and RUNS["inc", 0] == before + 1, "inc is not a plain function after the outermost block", "plain")
            for s in self.names:
                st = self.open(s)
                st.allow_new_calls(False)
                with st:
                    for name, x in sorted(set(self.m.runs) | {("inc", 0)}):
                        try:
                            got = st.unwrap(OPS[name](x))
                        except RuntimeError:
                            got = None
                        want = self.m.saved[s][name, x] if (name, x) in self.m.durable[s] else None
                        check(got == want, lambda: f"in a later session {name}({x}) of {s} is {got}, expected {want}", "durable")
            return {"outcome": (tuple(self.log), sorted(self.m.durable["A"]), sorted(self.m.durable["B"])), "steps": self.steps}
        finally:
            Context.current_context = None
            shutil.rmtree(self.dir, ignore_errors=True)


def one(item):
    return Run(item).run()


def programs(n, leaves, blocks, ctx=False, depth=3):
    """forests with exactly n nodes; nothing after a statement that always raises;
    no-op regions of the class noop only where a context is active"""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for first in trees(k, leaves, blocks, ctx, depth):
            if first in ENDS:
                if n == 1:
                    yield (first,)
                continue
            for rest in programs(n - k, leaves, blocks, ctx, depth):
                yield (first,) + rest


def trees(n, leaves, blocks, ctx, depth):
    if n == 1:
        for l in leaves:
            if ctx or l not in ("f", "k", "of", "s", "on", "nf"):
                yield l
    if depth:
        for b in blocks:
            if b == "n" and not ctx or n == 1 and b == "try":
                continue
            for body in programs(n - 1, leaves, blocks, ctx or b != "try", depth - 1):
                yield (b, body)


def has(p, x):
    return any(s == x or isinstance(s, tuple) and (s[0] == x or has(s[1], x)) for s in p)


PARTS = {"all statements": one, "blocks": one, "raising": one, "noop": one}


def run(ctx):
    allv = tuple(LEAVES) + ENDS + ("c",)

    def part(name, n, leaves, blocks, what, depth=4):
        # blocks of B only make sense next to A: symmetric programs without A are left out
        items = [p for k in range(1, n + 1) for p in programs(k, leaves, blocks, False, depth)
                 if not has(p, "B") or has(p, "A") or has(p, "N")]
        ctx.enumerate(name, one, items, chunksize=16, what=f"{what}: up to {n} nodes, {len(items)} programs")
    part("all statements", ctx.pick(3, 4), allv, BLOCKS, "every statement and block")
    part("blocks", ctx.pick(4, 6), ("i",), ("A", "n", "B"), "nesting of blocks")
    part("raising", ctx.pick(4, 5), ("o", "raise", "f", "c"), ("A", "n", "try"), "exceptions")
    part("noop", ctx.pick(4, 5), ("i", "on", "s", "raise"), ("A", "N", "n"), "no-op regions")
