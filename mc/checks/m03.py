"""M03: argument passing. All small signatures x all calls with a bounded number of
deviations from the simplest call, memoized and in a no-op region, against Python's own binding."""
import itertools, inspect, collections
from ..core import Violation
from ..world import check
from ..store import reset_globals, Storage, Binding
from ..world import Hooks
from mandala.imports import op, Ignore, NewArgDefault, ValuePointer, noop
from mandala.model import Ref, _Ignore
from . import _sigs as G

LEVEL = "model_checking"
BOUNDS = "all signatures of the grammar; all calls with up to the stated number of deviations from the simplest call"


def canon(v):
    return (type(v).__name__, repr(v))


class Run:
    def __init__(self, sig):
        reset_globals()
        self.spec = sig
        self.st = Storage()
        self.seen = []
        self.plain_f = G.build(sig, self.seen, "plain")
        self.f = G.build(sig, self.seen, "memo")
        self.op = op(ignore_args=tuple(sig["ignore"]) or None)(self.f)
        self.hids, self.cids = Binding("history"), Binding("content")
        self.answers = {}
        self.inc = op(_inc)
        with self.st:
            self.R = {"r": self.inc(0), "rr": self.inc(self.inc(0)), "z": self.inc(-1)}   # 1, 2 and 0 with histories
            self.R["zz"] = self.inc(self.inc(-2))                       # 0 again, another history

    def close(self):
        try:
            self.st.db._conn.close()
        except Exception:
            pass

    def value(self, v):
        """-> (what is passed, what the body gets, content for identity or None if ignored, history)"""
        if v in ("r", "rr", "z", "zz"):
            x = {"r": 1, "rr": 2, "z": 0, "zz": 0}[v]
            return self.R[v], x, canon(x), ("call", v)
        if isinstance(v, tuple) and v[0] == "I":
            a, x, _, _ = self.value(v[1])
            return Ignore(a), x, None, None
        if isinstance(v, tuple) and v[0] == "P":
            return ValuePointer(v[1], v[2]), v[2], ("pointer", v[1]), ("pointer", v[1])
        if isinstance(v, tuple) and v[0] == "mix":     # a plain list holding a reference
            return [self.R["r"], 5], [1, 5], None, "mixed"
        return v, v, canon(v), ("raw", canon(v))

    def spell(self, call):
        pos, kws = call
        a, b, given = [], [], []
        for v in pos:
            p, x, c, h = self.value(v)
            a.append(p), b.append(x), given.append((c, h))
        ka, kb, kgiven = {}, {}, {}
        for k, v in kws:
            p, x, c, h = self.value(v)
            ka[k], kb[k], kgiven[k] = p, x, (c, h)
        return a, ka, b, kb, given, kgiven

    def key(self, given, kgiven, b, kb):
        """identity of the call: parameter -> content (and history)"""
        sig = inspect.signature(self.plain_f)
        # bind indices instead of values, to know which value went where
        ba = sig.bind(*range(len(given)), **{k: k for k in kgiven})
        cont, hist = {}, {}

        def put(name, g, raw, p=None):
            c, h = g
            if p is not None and self.spec["defaults"].get(p) == "new" and c is not None and c[0] != "pointer" and canon(raw) == canon(G.NEW):
                return
            if p in self.spec["ignore"] or c is None:
                return
            cont[name], hist[name] = c, h
        for p, par in sig.parameters.items():
            if p in ba.arguments:
                i = ba.arguments[p]
                if par.kind is par.VAR_POSITIONAL:
                    for j, x in enumerate(i):
                        put(("*", j), given[x], b[x])
                elif par.kind is par.VAR_KEYWORD:
                    for k, x in i.items():
                        put(("**", k), kgiven[x], kb[x])
                elif isinstance(i, int):
                    put(("p", p), given[i], b[i], p)
                else:
                    put(("p", p), kgiven[i], kb[i], p)
            elif par.default is not par.empty:
                d = self.spec["defaults"][p]
                if d == "plain" and p not in self.spec["ignore"]:
                    c = canon(G.PLAIN)
                    cont[("p", p)], hist[("p", p)] = c, ("raw", c)
        return tuple(sorted(cont.items())), tuple(sorted(hist.items()))

    def expect(self, b, kb):
        """what the body would get if called directly"""
        n = len(self.seen)
        self.plain_f(*b, **kb)
        rec = self.seen[-1][1]
        del self.seen[n:]
        return {k: (v.value if isinstance(v, _Ignore) else v) for k, v in rec.items()}

    def compare(self, got, want, what):
        check(list(got) == list(want) and all(type(got[k]) is type(want[k]) and got[k] == want[k] and
              (not isinstance(got[k], dict) or list(got[k]) == list(want[k])) and
              (not isinstance(got[k], (tuple, dict)) or [type(x) for x in (got[k].values() if isinstance(got[k], dict) else got[k])] ==
               [type(x) for x in (want[k].values() if isinstance(want[k], dict) else want[k])])
              for k in want), lambda: f"{what}: the body received {got}, called directly it receives {want}", f"{what} arguments")

    def call(self, call, first):
        a, ka, b, kb, given, kgiven = self.spell(call)
        want = self.expect(b, kb)
        n = len(self.seen)
        # memoization switched off
        with self.st(mode="noop"):
            r = self.op(*a, **ka)
        check(len(self.seen) == n + 1, "the no-op call did not run the body once")
        check(not isinstance(r, Ref), "a no-op call returned a reference")
        self.compare(self.seen[-1][1], want, "no-op")
        del self.seen[n:]
        key, hist = self.key(given, kgiven, b, kb)
        new = key not in self.answers
        r = self.op(*a, **ka)
        ran = len(self.seen) - n
        check(isinstance(r, Ref), lambda: f"a memoized call returned {r!r}")
        check(ran == (1 if new else 0), lambda: f"the body ran {ran} times, expected {int(new)}; call identity {key}", f"exec {ran} {int(new)}")
        if new:
            self.compare(self.seen[-1][1], want, "run")
            self.answers[key] = self.seen[-1][0]
        v = self.st.unwrap(r)
        check(v == self.answers[key], lambda: f"answered with the result {v} instead of {self.answers[key]} of its own call", "wrong answer")
        self.hids.bind(hist, r.hid)
        return key

    def illegal(self, call):
        a, ka, b, kb, given, kgiven = self.spell(call)
        n = len(self.seen)
        before = self.snapshot()
        try:
            self.op(*a, **ka)
        except TypeError:
            pass
        else:
            raise Violation("an illegal call was accepted", "illegal accepted")
        check(len(self.seen) == n and self.snapshot() == before, "an illegal call left something behind", "illegal left")

    def snapshot(self):
        st = self.st
        return len(st.calls.cache), len(st.atoms.cache), len(st.shapes.cache)


def _inc(x):
    return x + 1


def one(item):
    spec, calls, bad = item
    r = Run(spec)
    keys = []
    cur = None
    try:
        with r.st:
            for c in calls:
                cur = c
                keys.append(r.call(c, True))
            for c in bad:
                cur = c
                r.illegal(c)
        cur = "later session"
        n = len(r.seen)
        df = r.st.call_storage.get_df()
        saved = df[df["op"] == r.op.name].reset_index().call_history_id.nunique()
        check(saved == len(r.hids.f), lambda: f"{saved} calls saved, {len(r.hids.f)} different calls were made", "saved calls")
        r.st.clear_cache()
        with r.st:
            for c in calls[:12]:
                cur = c
                r.call(c, False)
        check(len(r.seen) == n, "calls ran again after clearing the cache", "ran again")
        return {"outcome": keys, "steps": len(calls) * 2}
    except Violation as v:
        raise Violation(f"def f{G.text(spec)}, ignoring {spec['ignore']}, call {cur}: {v.msg}", v.sig)
    except Exception as e:
        raise Violation(f"def f{G.text(spec)}, ignoring {spec['ignore']}, call {cur}: unexpected {type(e).__name__}: {e}", f"exc:{type(e).__name__}")
    finally:
        r.close()


def pointer(item):
    """a value pointer is not the same argument as the string that is its name"""
    first, second = item
    reset_globals()
    st = Storage()
    seen = []

    def g(x):
        seen.append(x)
        return len(seen)
    f = op(g)
    mk = {"pointer": lambda: ValuePointer("a", 7), "string": lambda: "a"}
    with st:
        a = st.unwrap(f(mk[first]()))
        b = st.unwrap(f(mk[second]()))
    check(a != b, "a call with the string 'a' and one with a value pointer named 'a' share a result", f"pointer and string {first} first")
    return {}


class Point(collections.namedtuple("Point", "x y")):
    pass


class MyList(list):
    pass


class MyDict(dict):
    pass


class MySet(set):
    pass


def _containers():
    dd = collections.defaultdict(int)
    dd["k"] = 1
    od = collections.OrderedDict([("b", 1), ("a", 2)])
    base = {"namedtuple": Point(1, 2), "ordered": od, "default": dd, "list": MyList([1, 2]), "dict": MyDict(a=1),
            "set": MySet({1, 2}), "tuple": (1, 2), "plain list": [1, [2]], "plain dict": {"a": {"b": 1}}, "plain set": {1},
            "counter": collections.Counter("aab"), "empty tuple": (), "deque": collections.deque([1, 2], maxlen=3),
            "range": range(3), "frozenset": frozenset({1, 2})}
    for k, v in base.items():
        yield k, v
        yield k + " in list", [v, 1]
        yield k + " in dict", {"q": v}
        yield k + " in tuple", (0, v)


CONTAINERS = [k for k, _ in _containers()]


def container(item):
    """the body is given a container of the same type with the same contents"""
    name, how = item
    reset_globals()
    v = dict(_containers())[name]
    want = dict(_containers())[name]
    st = Storage()
    got = []

    def g(x):
        got.append(x)
        return 1
    f = op(g)

    @op(nout=1)
    def same(x):
        return (x,)
    if how == "outside":
        f(v)
    else:
        with st:
            if how == "raw":
                f(v)
            elif how == "ref":
                f(same(v))
            elif how == "noop":
                with noop():
                    f(v)
            else:
                ref = same(v)
                with noop():
                    f(ref)
    check(len(got) == 1, f"the body ran {len(got)} times", "container runs")
    check(same_deep(got[0], want), lambda: f"{name}, {how}: the body received {got[0]!r} of type {type(got[0]).__name__} for {want!r}", "container")
    return {"outcome": (name, how)}


def same_deep(a, b):
    if type(a) is not type(b) or a != b:
        return False
    if isinstance(a, (list, tuple, collections.deque)):
        return all(same_deep(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_deep(a[k], b[k]) for k in a) and getattr(a, "default_factory", 0) == getattr(b, "default_factory", 0)
    return True


PARTS = {"signatures": one, "pointers": pointer, "containers": container}


def run(ctx):
    dev = ctx.pick(2, 3)
    items = []
    for spec in G.signatures(ctx.quick):
        calls, bad = G.calls(spec, dev, ctx.quick)
        n = 60
        for i in range(0, len(calls), n):
            items.append((spec, calls[i:i + n], bad if i == 0 else []))
    ctx.enumerate("signatures", one, items, chunksize=1, what=f"calls with up to {dev} deviations")
    ctx.enumerate("pointers", pointer, [("pointer", "string"), ("string", "pointer")])
    ctx.enumerate("containers", container, [(k, h) for k in CONTAINERS for h in ("raw", "ref", "noop", "noop ref", "outside")])
