"""M15: content ids and round trips. All values of a grammar (given as canonical
descriptions), each built in several ways; ids must agree with descriptions exactly."""
import collections, copy, datetime, decimal, enum, fractions, itertools, json, os, shutil, subprocess, sys, uuid
import numpy as np
import pandas as pd
from ..core import Violation, Scratch, VERIF
from ..world import check, Hooks
from .. import world as W
W.load()
from mandala.imports import Storage, op, wrap_atom
from mandala.model import Context, AtomRef
from mandala.utils import get_content_hash, serialize, deserialize

LEVEL = "model_checking"
BOUNDS = ("scalars, strings, numpy arrays and scalars, data frames, series, objects; tuples, lists, sets and dictionaries of up to "
          "two (thorough: three) of the scalars, and of up to two of representatives of each of these, to the stated depth; "
          "every pair of values is compared through its id")


class Color(enum.Enum):
    RED = 1
    BLUE = 2


Point = collections.namedtuple("Point", "x y")
Pair = collections.namedtuple("Pair", "x y")


class Plain:
    def __init__(self, x):
        self.x = x


class Other(Plain):
    pass


class Custom:
    """content given by the object itself"""
    def __init__(self, key, noise):
        self.key, self.noise = key, noise

    def __get_mandala_dict__(self):
        return {"custom": self.key}


class MyList(list):
    pass


class MyDict(dict):
    pass


class MySet(set):
    pass


class Slots:
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b


SCALARS = ["None", "True", "False", "0", "1", "-1", "-2", "2", "255", "256", "10**30", "-10**30", "0.0", "1.0", "0.1", "-1.5", "1e300",
           "float('nan')", "float('inf')", "-float('inf')", "''", "'a'", "'b'", "'ab'", "'1'", "'None'", "'\\u00e9'", "' a'", "'A'", "'a\\x00'", "b''", "b'a'",
           "b'ab'", "b'1'", "bytearray(b'a')", "complex(1, 2)", "complex(1, 0)", "Ellipsis", "NotImplemented",
           "datetime.date(2020, 1, 1)", "datetime.datetime(2020, 1, 1)", "datetime.datetime(2020, 1, 1, 0, 0, 1)", "datetime.timedelta(1)", "datetime.timedelta(seconds=1)",
           "datetime.time(1, 2)", "decimal.Decimal('1.0')", "decimal.Decimal('1')", "fractions.Fraction(1, 2)", "uuid.UUID(int=1)", "Color.RED", "Color.BLUE",
           "range(3)", "range(0, 4, 2)", "slice(1, 2)", "collections.OrderedDict([(1, 2), (2, 1)])", "collections.defaultdict(list, {1: [2]})", "collections.Counter('aab')", "collections.deque([1, 2])", "collections.deque([1, 2], 5)", "MyList([1, 2])", "MyDict(a=1)", "MySet([1])", "frozenset([1])", "frozenset()", "Point(1, 2)", "Pair(1, 2)", "Point(2, 1)", "Plain(1)", "Plain(2)", "Plain('1')", "Plain([1])", "Other(1)",
           "Slots(1, 2)", "Slots(2, 1)", "int", "float", "Plain", "len", "os.path.join", "x_plus"]
NUMPY = (["np.%s(1)" % t for t in ("int8", "int64", "uint8", "float32", "float64", "bool_", "complex128", "str_")]
         + ["np.array(%s, dtype='%s')" % (v, t) for v in ("1", "[1]", "[1, 2]", "[2, 1]", "[1, 2, 0]", "[[1, 2]]", "[[1], [2]]", "[[1, 2], [2, 1]]", "[[1, 2], [1, 2]]", "[[[1, 2]]]", "[]")
            for t in ("int64", "int32", "uint8", "float64", "float32", "bool", "complex128", "U1", "O", "S1", "M8[D]", "m8[s]")
            ]
         + ["np.zeros((0,))", "np.array(['a', 'b'])", "np.array(['a', 'bc'])", "np.array(['ab', 'c'])", "np.array(['a', None], dtype=object)",
            "np.array([(1, 2.0)], dtype=[('a', 'i4'), ('b', 'f4')])", "np.array([(1, 2.0)], dtype=[('a', 'i4'), ('c', 'f4')])", "np.array([1.0, np.nan])", "np.array([np.nan, 1.0])",
            "np.dtype('int64')", "np.dtype('int32')"])
FRAMES = ["pd.DataFrame(%s)" % a for a in (
    "{'a': [1, 2]}", "{'a': [2, 1]}", "{'b': [1, 2]}", "{'a': [1.0, 2.0]}", "{'a': ['1', '2']}", "{'a': [True, False]}", "{'a': [1, 2, 0]}", "{'a': [1]}",
    "{'a': [1, 2], 'b': [3, 4]}", "{'b': [3, 4], 'a': [1, 2]}", "{'a': [3, 4], 'b': [1, 2]}", "{'a': [1, 3], 'b': [2, 4]}", "{'a': [1, 2], 'c': [3, 4]}",
    "{'a': [1, 2]}, index=['x', 'y']", "{'a': [1, 2]}, index=['y', 'x']", "{'a': [1, 2]}, index=['x', 'x']", "{'a': [1, 2]}, index=[5, 6]", "{'a': [1, 2]}, index=[5.0, 6.0]",
    "{'a': [1, 2]}, index=pd.Index(['x', 'y'], name='n')", "{'a': [1, 2]}, index=pd.Index(['x', 'y'], name='m')", "{'a': [1, 2]}, columns=pd.Index(['a'], name='n')",
    "{'a': [1, 2]}, index=pd.MultiIndex.from_tuples([('x', 1), ('y', 2)])", "{'a': [1, 2]}, index=pd.MultiIndex.from_tuples([('x', 2), ('y', 1)])",
    "{'a': [1, 2]}, dtype='int8'", "{'a': [1, 2]}, dtype='float32'",
    "{}", "{}, index=[0]", "{'a': [None, 'x']}", "{'a': ['x', None]}", "{'a': [1.0, np.nan]}", "{'a': pd.to_datetime(['2020', '2021'])}", "{0: [1, 2]}", "{'0': [1, 2]}",
    "{'a': [[1], [2]]}", "{'a': [(1,), (2,)]}", "{'a': ['x', 'y'], 'b': [1, 2]}", "{'a': ['x', 'y'], 'b': [1, 3]}", "{'a': ['x', 'y'], 'b': ['1', '2']}",
    "[[1, 2]], columns=['a', 'a']")]
SERIES = ["pd.Series(%s)" % a for a in ("[1, 2]", "[2, 1]", "[1.0, 2.0]", "['1', '2']", "[1, 2], name='a'", "[1, 2], name='b'", "[1, 2], index=['x', 'y']", "[1, 2], index=['y', 'x']", "[True, False]", "[1, 2], dtype='int8'")]
SERIES += ["pd.Index([1, 2])", "pd.Index(['x'])", "pd.Index(['x'], name='n')", "pd.Timestamp('2020')", "pd.Timestamp('2021')", "pd.Timedelta('1D')", "pd.Categorical(['a', 'b'])", "pd.Categorical(['b', 'a'])", "pd.NaT"]
# keys of dictionaries and members of sets, of different types
KEYS = ["1", "2", "-1", "-2", "'a'", "'b'", "'1'", "1.5", "None", "b'a'", "('t', 1)", "('t', 2)"]
SHORT = ["None", "1", "2", "1.0", "True", "'a'", "'b'", "''", "b'a'", "0.1"]


def x_plus(x):
    return x


ENV = {k: v for k, v in globals().items() if not k.startswith("__")}
#  a description is ("s", text) | ("l"|"t", items...) | ("S", items sorted) | ("d", (key, item) sorted...)


def S(t):
    return ("s", t)


def composites(members, keys, n):
    for k in range(n + 1):
        for xs in itertools.product(members, repeat=k):
            yield ("l",) + xs
            yield ("t",) + xs
            for ks in itertools.combinations(sorted(keys), k):
                yield ("d",) + tuple(zip(ks, xs))


def sets(keys, n):
    for k in range(n + 1):
        for ks in itertools.combinations(sorted(keys), k):
            yield ("S",) + ks


def grammar(tier):
    quick = tier == "quick"
    seen = {}

    texts = set()

    def put(it):
        for d in it:
            if d not in seen:
                t = text(build(d, 0))
                if t not in texts:
                    texts.add(t)
                    seen[d] = None
    put(map(S, SCALARS + NUMPY + FRAMES + SERIES))
    shorts = [S(x) for x in SHORT]
    put(composites([S(x) for x in SCALARS], [], 1))
    put(composites(shorts, [S(k) for k in KEYS], 2))
    put(sets([S(k) for k in KEYS], 3))
    put(composites([S(x) for x in NUMPY[:8] + NUMPY[8:60:5]], [S("'a'"), S("1")], 1 if quick else 2))
    two = [S("1"), S("2"), S("'a'")]
    put(composites(two, [S("'a'"), S("'b'"), S("1")], 3))
    one = list(composites([S("1"), S("'a'")], [S("'a'"), S("1")], 1)) + [("l", S("1"), S("2")), ("t", S("1"), S("2")), ("d", (S("'a'"), S("1")), (S("'b'"), S("1"))), ("S", S("1")), ("S", S("'a'")), ("S", S("1"), S("2")), ("S",)]
    one = list(dict.fromkeys(one)) + [S("1"), S("'a'")]
    put(composites(one, [S("'a'"), S("1")], 2))
    deep = [("l", x) for x in one] + [("d", (S("'a'"), x)) for x in one] + [("t", x) for x in one]
    put(composites(deep, [S("'a'"), S("'b'")], 1))
    if not quick:
        put(composites(deep, [S("'a'"), S("'b'")], 2))
        put(composites(shorts + [("l",), ("t",), ("d",)], [S("'a'"), S("'b'"), S("1")], 3))
    return list(seen)


def build(d, way):
    """every part is a new object"""
    if d[0] == "s":
        v = eval(d[1], ENV)
        if way == 1:      # built from pieces
            if type(v) is str:
                v = "".join(list(v))
            if isinstance(v, (pd.DataFrame, pd.Series)):
                v = v.copy()
        return v
    items = d[1:]
    if way == 1 and d[0] in "Sd":
        items = items[::-1]
    if d[0] == "l":
        return [build(x, way) for x in items]
    if d[0] == "t":
        return tuple([build(x, way) for x in items])
    if d[0] == "S":
        r = set()
        for x in items:
            r.add(build(x, way))
        return r
    r = {}
    if way == 2:
        r["gone"] = 1
    for k, x in items:
        r[build(k, way)] = build(x, way)
    r.pop("gone", None)
    return r


def text(v):
    """what a value is, as text; equal texts are equal values of equal types"""
    t = type(v).__name__
    if isinstance(v, (list, tuple)):
        return t + "(" + ",".join(map(text, v)) + ")"
    if isinstance(v, set):
        return t + "{" + ",".join(sorted(map(text, v))) + "}"
    if isinstance(v, dict):
        return t + "{" + ",".join(sorted(text(k) + ":" + text(x) for k, x in v.items())) + "}"
    if isinstance(v, np.ma.MaskedArray):
        return f"masked({v.dtype},{v.tolist()})"
    if isinstance(v, np.ndarray):
        return f"array({v.dtype.str if v.dtype.names is None else v.dtype},{v.shape},{text(v.tolist())})"
    if isinstance(v, (pd.Index, pd.Categorical)):
        return f"{t}({getattr(v, 'name', None)!r},{getattr(v, 'names', None)},{v.dtype},{text(v.tolist())})"
    if isinstance(v, pd.DataFrame):
        return f"frame({text(v.columns)},{text(v.index)},{[text(v.iloc[:, i].tolist()) + str(v.dtypes.iloc[i]) for i in range(v.shape[1])]})"
    if isinstance(v, pd.Series):
        return f"series({v.name!r},{text(v.index)},{v.dtype},{text(v.tolist())})"
    if isinstance(v, (Plain, Other)):
        return t + text(v.__dict__)
    if isinstance(v, Slots):
        return t + text((v.a, v.b))
    if isinstance(v, Custom):
        return t + text(v.key)
    return f"{t}:{v!r}"


def ids(ds):
    return [[get_content_hash(build(d, w)) for w in (0, 1, 2)] for d in ds]


GRAMMAR = {}


def chunk(item):
    tier, lo, hi = item
    g = GRAMMAR.get(tier)
    if g is None:
        g = GRAMMAR[tier] = grammar(tier)
    return g[lo:hi]


def uniform(item):
    """one id however built, and round trips"""
    states = []
    for d in chunk(item):
        v = build(d, 0)
        h = get_content_hash(v)
        r = wrap_atom(v)
        check(r.cid == h and isinstance(r, AtomRef), "id of a wrapped value", "wrap")
        t = text(v)
        b = serialize(v)
        check(isinstance(b, bytes), "serialized form is not bytes", "bytes")
        w = deserialize(b)
        check(text(w) == t, lambda: f"{d} reads back as {t} -> {text(w)}", "round trip")
        others = [build(d, 1), build(d, 2), copy.deepcopy(v), w, deserialize(serialize(w))]
        for i, o in enumerate(others):
            check(text(o) == t, f"harness: {d} built in way {i}: {text(o)} and {t}")
            check(get_content_hash(o) == h, lambda: f"equal values {t} get two content ids (way {i})", f"two ids")
        check(text(v) == t and get_content_hash(v) == h, "hashing or serializing changed the value", "changed")
        states.append(h)
    return {"outcome": item, "steps": 8 * len(states), "states": states}


def injective(item):
    tier, n = item
    g = chunk((tier, 0, None))
    seen = {}
    for d in g:
        v = build(d, 0)
        h, t = get_content_hash(v), text(v)
        t2 = seen.setdefault(h, t)
        check(t2 == t, lambda: f"{t} and {t2} have the same content id", "collision")
    return {"outcome": len(seen), "steps": len(g) * (len(g) - 1) // 2}


def process(item):
    """the same ids in a process of its own with another hash seed"""
    tier, lo, hi, seed = item
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    out = subprocess.run([sys.executable, "-B", "-W", "ignore", "-c", "import mc.checks.m15 as m; m.main()", tier, str(lo), str(hi)], env=env, cwd=VERIF,
                         capture_output=True, text=True)
    if out.returncode:
        raise RuntimeError(out.stderr[-800:])
    got = json.loads(out.stdout.strip().splitlines()[-1])
    mine = ids(chunk((tier, lo, hi)))
    for d, a, b in zip(chunk((tier, lo, hi)), got, mine):
        check(a == b, lambda: f"the content id of {d} depends on the process", "process")
    return {"outcome": item, "steps": len(got) * 3}


COUNT = collections.Counter()


@op
def describe(v):
    COUNT["describe"] += 1
    return text(v)


@op(nout=1)
def ident(v):
    COUNT["ident"] += 1
    return (v,)


def stored(item):
    """through a storage: computed once, answered correctly, read back equal in a later session"""
    rng, overflow = item
    ds = chunk(rng)
    Context.current_context = None
    Hooks.reset()
    dir = Scratch.new()

    def open_():
        kw = dict(overflow_dir=os.path.join(dir, "ov"), overflow_threshold_MB=overflow) if overflow is not None else {}
        return Storage(db_path=os.path.join(dir, "db"), **kw)
    try:
        st = open_()
        COUNT.clear()
        refs = {}
        with st:
            for i, d in enumerate(ds):
                v = build(d, 0)
                t = text(v)
                r, a = ident(v), describe(v)
                check(st.unwrap(a) == t, lambda: f"a function of {t} was answered with {st.unwrap(a)}", "answer")
                check(COUNT["describe"] == i + 1 and COUNT["ident"] == i + 1, lambda: f"calls on {t}: bodies ran {dict(COUNT)}, expected {i + 1}", "runs")
                refs[i] = (r.hid, r.cid, t)
        for how in ("same", "new", "preloaded"):
            if how != "same":
                st = open_()
            if how == "preloaded":
                st.preload(lazy=False)
            for i, d in enumerate(ds):
                hid, cid, t = refs[i]
                got = text(st.unwrap(st.load_ref(hid)))
                check(got == t, lambda: f"{t} reads back as {got} ({how} session)", "read back")
            with st:
                for i, d in enumerate(ds):
                    hid, cid, t = refs[i]
                    r = ident(build(d, 1))
                    check(r.cid == cid and r.hid == hid, "ids of the result differ in a later call", "ids")
                    check(text(st.unwrap(r)) == t, "value of a later call", "later")
                    check(st.unwrap(describe(r)) == t, "answer of a later call", "later answer")
                    check(st.unwrap(describe(build(d, 2))) == t, "answer of a later call", "later answer")
            check(COUNT["ident"] == len(ds) and COUNT["describe"] == len(ds), lambda: f"run again: {dict(COUNT)} for {len(ds)} values ({how})", "run again")
        return {"outcome": item, "steps": len(ds) * 20}
    finally:
        Context.current_context = None
        shutil.rmtree(dir, ignore_errors=True)


def custom(item):
    a, b = item
    x, y = Custom(*a), Custom(*b)
    same = get_content_hash(x) == get_content_hash(y)
    check(same == (a[0] == b[0]), f"objects with contents {a[0]} and {b[0]}", "custom content")
    return {"outcome": same}


def pair(name, a, b, equal):
    return name, a, b, equal


# pairs that are known to be treated wrongly (known_findings.json), one signature for each kind
KNOWN = {
    "shared parts": ("(lambda a: [a, a])([1])", "[[1], [1]]", True),
    "shared tuples": ("(lambda a: (a, a))(tuple([1, 2]))", "(tuple([1, 2]), tuple([1, 2]))", True),
    "array order": ("np.asfortranarray(np.arange(4).reshape(2, 2))", "np.arange(4).reshape(2, 2)", True),
    "array slice": ("np.arange(8)[::2]", "np.arange(0, 8, 2)", True),
    "frozenset order": ("frozenset([0, 8])", "frozenset([8, 0])", True),
    "ordered dictionaries": ("collections.OrderedDict([('a', 1), ('b', 2)])", "collections.OrderedDict([('b', 2), ('a', 1)])", False),
    "frame column types": ("pd.DataFrame({'a': np.array([1], dtype='int8'), 'b': ['x']})", "pd.DataFrame({'a': np.array([1], dtype='int64'), 'b': ['x']})", False),
    "frame categories": ("pd.DataFrame({'a': pd.Categorical(['x'])})", "pd.DataFrame({'a': ['x']})", False),
    "frame widened types": ("pd.DataFrame({'a': [1], 'b': [1.5]})", "pd.DataFrame({'a': [1.0], 'b': [1.5]})", False),
    "array byte order": ("np.array([1], dtype='>i8')", "np.array([1], dtype='>i8').copy()", True),
    "used date index": ("(lambda d: (d.index.tolist(), d)[1])(pd.DataFrame({'a': [1]}, index=pd.DatetimeIndex(['2020'])))",
                        "pd.DataFrame({'a': [1]}, index=pd.DatetimeIndex(['2020']))", True),
    "masked arrays": ("np.ma.masked_array([1, 2], mask=[0, 1])", "np.ma.masked_array([1, 2], mask=[1, 0])", False),
    "frames in lists": ("[pd.DataFrame({'a': [1]}).assign(b=[2])]", "[pd.DataFrame({'a': [1], 'b': [2]})]", True),
    "frame and dictionary": ("pd.DataFrame({'a': [1]})", "(lambda d: {'columns': d.columns, 'values': d.values, 'index': d.index})(pd.DataFrame({'a': [1]}))", False),
}


def special(name):
    a, b, equal = KNOWN[name]
    x, y = eval(a, ENV), eval(b, ENV)
    try:
        same = get_content_hash(x) == get_content_hash(y)
    except Exception as e:
        raise Violation(f"{a} has no content id: {e}", f"special {name}")
    if equal is not None:
        check(same == equal, f"{a} and {b}: {'one id' if same else 'two ids'}", f"special {name}")
    v = deserialize(serialize(x))
    check(text(v) == text(x), f"{a} reads back as {text(v)}", f"special {name}")
    check(type(v) is type(x), "type changes in a round trip", "round trip")
    return {"outcome": same}


PARTS = {"one id": uniform, "different ids": injective, "processes": process, "stored": stored, "custom": custom, "special": special}


def run(ctx):
    n = len(grammar(ctx.tier))
    t = ctx.tier
    rng = lambda k: [(t, i, min(i + k, n)) for i in range(0, n, k)]
    ctx.enumerate("one id", uniform, rng(100), chunksize=1, what=f"{n} values, six ways to build each")
    ctx.enumerate("different ids", injective, [(t, n)], what="all pairs")
    ctx.enumerate("processes", process, [r + (s,) for r in rng(n // 4 + 1) for s in (1, 7)], chunksize=1)
    m = ctx.pick(1400, n)
    st = [r for r in rng(20) if r[1] < m]
    if ctx.quick:
        st += rng(20)[-8:]
    ctx.enumerate("stored", stored, [(r, None) for r in st] + [(r, 0) for r in st[::ctx.pick(3, 1)]], chunksize=1)
    cs = [(k, z) for k in (1, 2, "1") for z in (0, [1])]
    ctx.enumerate("custom", custom, list(itertools.product(cs, cs)))
    ctx.enumerate("special", special, list(KNOWN))


def main():
    print(json.dumps(ids(chunk((sys.argv[1], int(sys.argv[2]), int(sys.argv[3]))))))
