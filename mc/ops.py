"""memoized functions over a three-element domain (contents collide on purpose)"""
import collections
from typing import Any, Tuple
import numpy as np, pandas as pd
from mandala.imports import op, MList, MDict

COUNTS = collections.Counter()


@op
def inc(x):
    COUNTS["inc"] += 1
    return (x + 1) % 3


@op
def par(x):
    COUNTS["par"] += 1
    return x % 2


@op(output_names=["s", "d"])
def two(a, b):
    COUNTS["two"] += 1
    return (a + b) % 3, a


@op
def add(a, b=1):
    COUNTS["add"] += 1
    return (a + b) % 3


@op
def trip(a, b, c):
    COUNTS["trip"] += 1
    return (a, b, c)


@op
def wide(x):
    """eleven outputs, so that the textual order of the output names differs from their order"""
    COUNTS["wide"] += 1
    return tuple((x + i) for i in range(11))


@op
def mk(n) -> MList[int]:
    COUNTS["mk"] += 1
    return [n, (n + 1) % 3]


@op
def tot(xs: MList[int]):
    COUNTS["tot"] += 1
    return sum(xs) % 3


@op
def mkd(n) -> MDict[str, int]:
    COUNTS["mkd"] += 1
    return {"p": n, "q": (n + 1) % 3}


@op
def totd(d: MDict[str, int]):
    COUNTS["totd"] += 1
    return sum(d.values()) % 3


@op
def nest(n) -> MList[MList[int]]:
    COUNTS["nest"] += 1
    return [[n], [n, (n + 1) % 3]]


@op
def big(n):
    """a value of about 2 kB"""
    COUNTS["big"] += 1
    return "b" * 2000 + str(n % 3)


@op
def large(n):
    """the same values as big()"""
    COUNTS["large"] += 1
    return "b" * 2000 + str(n % 3)


@op
def size(s):
    COUNTS["size"] += 1
    return len(s) % 3


@op
def arr(n):
    """an array of 1600 bytes"""
    COUNTS["arr"] += 1
    return np.full((20, 10), n % 3, dtype="int64")


@op
def asum(a):
    COUNTS["asum"] += 1
    return int(a.sum()) % 3


@op
def half(a):
    COUNTS["half"] += 1
    return a[:10]


@op
def table(n):
    COUNTS["table"] += 1
    return _table(n)


def _table(n):
    return pd.DataFrame({"i": range(n, n + 40), "s": [str(n)] * 40}, index=[f"r{i}" for i in range(40)])


@op
def rows(t):
    COUNTS["rows"] += 1
    return int(t["i"].sum()) % 3


@op
def pack(n):
    COUNTS["pack"] += 1
    return _pack(n)


def _pack(n):
    return {"k": [n, None, (1.5, "x" * 1500)], n: {"s": {n, 5}}, (1, 2): np.arange(n, n + 3)}


@op
def keep(v):
    COUNTS["keep"] += 1
    return [v]


A, L, D = "a", lambda t: ("l", t), lambda t: ("d", t)

# name -> (op, plain function, parameters, defaults, input types, output names, output types)
TABLE = {
    "inc": (inc, lambda x: (x + 1) % 3, ["x"], {}, {"x": A}, ["output_0"], [A]),
    "par": (par, lambda x: x % 2, ["x"], {}, {"x": A}, ["output_0"], [A]),
    "two": (two, lambda a, b: ((a + b) % 3, a), ["a", "b"], {}, {"a": A, "b": A}, ["s", "d"], [A, A]),
    "add": (add, lambda a, b=1: (a + b) % 3, ["a", "b"], {"b": 1}, {"a": A, "b": A}, ["output_0"], [A]),
    "trip": (trip, lambda a, b, c: (a, b, c), ["a", "b", "c"], {}, {"a": A, "b": A, "c": A},
             ["output_0", "output_1", "output_2"], [A, A, A]),
    "wide": (wide, lambda x: tuple(x + i for i in range(11)), ["x"], {}, {"x": A},
             [f"output_{i}" for i in range(11)], [A] * 11),
    "mk": (mk, lambda n: [n, (n + 1) % 3], ["n"], {}, {"n": A}, ["output_0"], [L(A)]),
    "tot": (tot, lambda xs: sum(xs) % 3, ["xs"], {}, {"xs": L(A)}, ["output_0"], [A]),
    "mkd": (mkd, lambda n: {"p": n, "q": (n + 1) % 3}, ["n"], {}, {"n": A}, ["output_0"], [D(A)]),
    "totd": (totd, lambda d: sum(d.values()) % 3, ["d"], {}, {"d": D(A)}, ["output_0"], [A]),
    "nest": (nest, lambda n: [[n], [n, (n + 1) % 3]], ["n"], {}, {"n": A}, ["output_0"], [L(L(A))]),
    "big": (big, lambda n: "b" * 2000 + str(n % 3), ["n"], {}, {"n": A}, ["output_0"], [A]),
    "large": (large, lambda n: "b" * 2000 + str(n % 3), ["n"], {}, {"n": A}, ["output_0"], [A]),
    "arr": (arr, lambda n: np.full((20, 10), n % 3, dtype="int64"), ["n"], {}, {"n": A}, ["output_0"], [A]),
    "asum": (asum, lambda a: int(a.sum()) % 3, ["a"], {}, {"a": A}, ["output_0"], [A]),
    "half": (half, lambda a: a[:10], ["a"], {}, {"a": A}, ["output_0"], [A]),
    "table": (table, _table, ["n"], {}, {"n": A}, ["output_0"], [A]),
    "rows": (rows, lambda t: int(t["i"].sum()) % 3, ["t"], {}, {"t": A}, ["output_0"], [A]),
    "pack": (pack, _pack, ["n"], {}, {"n": A}, ["output_0"], [A]),
    "keep": (keep, lambda v: [v], ["v"], {}, {"v": A}, ["output_0"], [A]),
    "size": (size, lambda s: len(s) % 3, ["s"], {}, {"s": A}, ["output_0"], [A]),
}

TAKES = {"size": str, "asum": np.ndarray, "half": np.ndarray, "rows": pd.DataFrame}


def takes(op, val):
    """can the function be called on this value? Numbers only, unless stated"""
    return isinstance(val, TAKES[op]) if op in TAKES else not isinstance(val, (str, np.ndarray, pd.DataFrame, dict))


def same(v, w):
    """equal values of one type"""
    if type(v) is not type(w):
        return False
    if isinstance(v, np.ndarray):
        return v.dtype == w.dtype and v.shape == w.shape and bool((v == w).all())
    if isinstance(v, pd.DataFrame):
        return v.equals(w) and list(v.columns) == list(w.columns) and v.index.equals(w.index)
    if isinstance(v, dict):
        return set(v) == set(w) and all(same(v[k], w[k]) for k in v)
    if isinstance(v, (list, tuple)):
        return len(v) == len(w) and all(map(same, v, w))
    return v == w
