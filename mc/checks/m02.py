"""M02: identities. All small programs are run in separate processes under several
configurations; over all of them, symbolic identities and actual ids must be in bijection."""
import os, sys, json, subprocess, itertools, ast
from ..core import Violation, VERIF
from ..store import O
from .. import idrun

LEVEL = "model_checking"
BOUNDS = "all programs up to the stated length over the alphabets below, each in every configuration"
R0, R1 = ("r", 0), ("r", 1)

CONFIGS = [
    dict(seed="0", file=False, overflow=None, spelling=0, again=1),
    dict(seed="1", file=True, overflow=None, spelling=3, again=0),
    dict(seed="2", file=True, overflow=0, spelling=2, again=4),
    dict(seed="3", file=True, overflow=0.001, spelling=4, again=3),
    dict(seed="random", file=False, overflow=None, spelling=1, again=2),
]

CALLS = [("inc", 0), ("inc", R0), ("inc", R1), ("par", 1), ("par", R0), ("two", 0, 1), ("two", R0, R1), ("two", 1, 0),
         ("add", 1), ("add", 1, 1), ("add", R0), ("add", R0, R1), ("add", R1, R0), ("trip", 0, R0, 1)]
COLL = [("mk", 0), ("mk", R0), ("tot", R0), ("tot", ("L", 0, 1)), ("tot", ("L", 1, 0)), ("tot", ("L", R0, 1)), ("tot", ("L",)),
        ("tot", ("L", ("e", 0, 1), ("e", 0, 0))), ("mkd", 0), ("totd", R0), ("totd", ("D", ("p", 0), ("q", 1))),
        ("totd", ("D", ("q", 1), ("p", 0))), ("totd", ("D", ("p", 1), ("q", 0))), ("totd", ("D",)), ("nest", 0), ("inc", ("e", 0, 0))]


def legal(prog, w=[None]):
    """only programs all of whose arguments make sense"""
    from ..store import StoreWorld
    m = _Dry()
    return all(m.step(c) for c in prog)


class _Dry:
    """just enough of the model to know which references exist"""
    def __init__(self):
        from ..model import Model
        self.m, self.results = Model(O.TABLE), []

    def arg(self, a):
        if isinstance(a, tuple):
            if a[0] == "r":
                return self.results[a[1]]
            if a[0] == "e":
                return self.results[a[1]].items[a[2]] if self.results[a[1]].kind == "l" else list(self.results[a[1]].items.values())[a[2]]
            if a[0] == "v":
                return ast.literal_eval(a[1])
            if a[0] == "L":
                return [self.arg(x) for x in a[1:]]
            return {k: self.arg(x) for k, x in a[1:]}
        return a

    def fits(self, s, tp):
        from ..model import S
        if tp == "a":
            return not isinstance(s, S) or (s.kind == "a" and not isinstance(s.val, str))
        if isinstance(s, S):
            return s.kind == tp[0] and all(self.fits(x, tp[1]) for x in (s.items if s.kind == "l" else s.items.values()))
        return all(self.fits(x, tp[1]) for x in (s if isinstance(s, list) else s.values()))

    def step(self, c):
        t = O.TABLE[c[0]]
        try:
            args = {p: self.arg(a) for p, a in zip(t[2], c[1:])}
        except (IndexError, AttributeError, TypeError):
            return False
        if not all(self.fits(v, t[4][p]) for p, v in args.items()):
            return False
        outs = self.m.call(c[0], args)[0]
        for s in reversed(outs):
            self.results = [s] + [x for x in self.results if x.hid != s.hid]
        return True


VALUES = [0, 1, True, 1.0, "0", "1", "", None, "a", b"a", (), (0,), (1,), (0, 1), (1, 0), [], [0], [1], [0, 1], [1, 0], [[0], 1],
          [[0, 1]], {}, {"a": 0}, {"a": 1}, {"b": 0}, {"a": 0, "b": 1}, {"a": 1, "b": 0}, {0: "a"}, {"0": "a"}, -1, 2.5, "None", (None,),
          ((0,), 1), (0, (1,)), "inc", "output_0", 10 ** 20]


def programs(n_plain, n_coll):
    for alpha, n in ((CALLS, n_plain), (COLL, n_coll)):
        for k in range(1, n + 1):
            for p in itertools.product(alpha, repeat=k):
                if legal(p):
                    yield tuple(("call",) + c for c in p)
    yield from ((("call", "keep", ("v", repr(v))), ("call", "keep", R0)) for v in VALUES)
    yield tuple(("call", "keep", ("v", repr(v))) for v in VALUES)


def batch(item):
    """all given programs in a fresh process"""
    name, cfg, progs = item
    env = dict(os.environ, PYTHONHASHSEED=cfg["seed"])
    r = subprocess.run([sys.executable, "-B", "-W", "ignore", "-m", "mc.idrun"], input=json.dumps({"cfg": cfg, "progs": progs}),
                       env=env, cwd=VERIF, capture_output=True, text=True)
    if r.returncode != 0:
        raise OSError(f"id process failed: {r.stderr[-2000:]}")
    res = json.loads(r.stdout)
    if res["viol"]:
        kind, (msg, sig), pr = res["viol"]
        if kind == "err":
            raise OSError(msg)
        raise Violation(f"program {pr} with {cfg}: {msg}", sig)
    if name:
        with open(os.path.join(os.environ["MC_SCRATCH"], f"ids-{name}.json"), "w") as f:
            json.dump({"cfg": cfg, "progs": progs, "pairs": res["pairs"]}, f)
    return {"steps": len(res["pairs"]), "outcome": sorted(a for _, _, a, _ in res["pairs"])[:50]}


def both(item):
    """two programs in two configurations, ids merged"""
    f, b = {}, {}
    for cfg, pr in item:
        env = dict(os.environ, PYTHONHASHSEED=cfg["seed"])
        r = subprocess.run([sys.executable, "-B", "-W", "ignore", "-m", "mc.idrun"], input=json.dumps({"cfg": cfg, "progs": [pr]}),
                           env=env, cwd=VERIF, capture_output=True, text=True)
        for k, s, a, _ in json.loads(r.stdout)["pairs"]:
            merge(f, b, k, s, a)
    return {}


def merge(f, b, k, s, a):
    o = f.setdefault((k, s), a)
    if o != a:
        raise Violation(f"the {k} id of {s[:500]} is {o} in one run and {a} in another", f"{k} id unstable")
    o = b.setdefault((k, a), s)
    if o != s:
        raise Violation(f"one {k} id for two different things:\n   {o[:500]}\n   {s[:500]}", f"{k} id collision")


def empties(item):
    """an empty list and an empty dictionary are different contents"""
    from ..store import StoreWorld
    w = StoreWorld({})
    try:
        st = w.st
        a, _ = st.construct(O_TYPES[item[0]], item[1])
        b, _ = st.construct(O_TYPES[item[2]], item[3])
        if a.cid == b.cid:
            raise Violation(f"{item[1]!r} and {item[3]!r}, passed as collections, have one content id", f"empty collections {item[0]} {item[2]}")
        return {"outcome": (a.cid, b.cid)}
    finally:
        w.close()


from mandala.tps import ListType, DictType, AtomType
O_TYPES = {"list": ListType(AtomType()), "dict": DictType(AtomType()), "lists": ListType(ListType(AtomType())), "dicts": DictType(DictType(AtomType()))}

PARTS = {"empty collections": empties, "programs": batch, "bijection": both}


def run(ctx):
    cases = [("list", []), ("dict", {}), ("lists", [[]]), ("dicts", {"a": {}}), ("lists", [[], []]), ("dicts", {"b": {}})]
    ctx.enumerate("empty collections", empties, [a + b for a, b in itertools.combinations(cases, 2)])
    progs = [repr(p) for p in programs(ctx.pick(2, 3), ctx.pick(2, 3))]
    n = 3 if ctx.quick else 16
    items = [(f"{c}-{i}", cfg, progs[i::n]) for c, cfg in enumerate(CONFIGS) for i in range(n)]
    ctx.enumerate("programs", batch, items, chunksize=1, what=f"{len(progs)} programs in {len(CONFIGS)} configurations, twice each")
    # the bijection over all processes
    f, b, src = {}, {}, {}
    total = 0
    for name, cfg, ps in items:
        path = os.path.join(os.environ["MC_SCRATCH"], f"ids-{name}.json")
        if not os.path.exists(path):
            continue
        rec = json.load(open(path))
        for k, s, a, i in rec["pairs"]:
            total += 1
            here = (rec["cfg"], rec["progs"][i])
            try:
                merge(f, b, k, s, a)
                src.setdefault((k, s), here)
            except Violation as v:
                other = src.get((k, s)) if "unstable" in v.sig else src.get((k, b[(k, a)]))
                ctx._violation("bijection", [other, here], v.msg, v.sig)
                if ctx.enough():
                    return
    for k in f:
        ctx.states.add(k)
    ctx.execs = len(progs) * len(CONFIGS)
    ctx.transitions += total
    ctx.parts.append({"part": "bijection", "symbolic_ids": len(f), "pairs_merged": total})
