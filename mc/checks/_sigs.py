"""signatures and calls for M03"""
import itertools, inspect
from mandala.imports import Ignore, NewArgDefault

PLAIN, NEW = 3, 0
DEF = {"none": "", "plain": f"={PLAIN}", "new": f"=NewArgDefault({NEW})", "ign": "=Ignore(8)"}


def text(s):
    parts = []
    kinds = [k for _, k in s["pos"]]
    for i, (n, k) in enumerate(s["pos"]):
        parts.append(n + DEF[s["defaults"][n]])
        if k == "po" and (i + 1 == len(kinds) or kinds[i + 1] != "po"):
            parts.append("/")
    if s["va"]:
        parts.append("*args")
    elif s["ko"]:
        parts.append("*")
    for n in s["ko"]:
        parts.append(n + DEF[s["defaults"][n]])
    if s["vk"]:
        parts.append("**kw")
    return "(" + ", ".join(parts) + ")"


def build(s, seen, name):
    ns = {"NewArgDefault": NewArgDefault, "Ignore": Ignore, "SEEN_": seen}
    names = [n for n, _ in s["pos"]] + (["args"] if s["va"] else []) + list(s["ko"]) + (["kw"] if s["vk"] else [])
    rec = ", ".join(f"({n!r}, {'dict(kw)' if n == 'kw' else n})" for n in names)
    exec(f"def {name}{text(s)}:\n    SEEN_.append((len(SEEN_) + 1, dict([{rec}])))\n    return len(SEEN_)\n", ns)
    f = ns[name]
    f.__module__ = "sigs"
    return f


def signatures(quick):
    heads = []
    for kinds in ((), ("po",), ("pk",), ("po", "pk"), ("pk", "pk"), ("po", "po")):
        names = ["a", "b"][:len(kinds)]
        opts = ["none", "plain", "new", "ign"]
        for d in itertools.product(opts, repeat=len(kinds)):
            if any(x != "none" and y == "none" for x, y in zip(d, d[1:])):
                continue
            if quick and len(kinds) == 2 and (d in (("plain", "plain"), ("new", "new"), ("ign", "ign"), ("ign", "new"), ("ign", "plain"), ("plain", "ign"))
                                              or kinds == ("po", "po") and "none" not in d):
                continue
            heads.append((list(zip(names, kinds)), dict(zip(names, d))))
    tails = []
    for va in (0, 1):
        for kd in (None, "none", "plain", "new", "ign"):
            for vk in (0, 1):
                tails.append((va, kd, vk))
    for pos, d in heads:
        for va, kd, vk in tails:
            if quick and len(pos) == 2 and (va, kd, vk) not in ((0, None, 0), (1, "none", 0), (0, "new", 1), (1, "plain", 1), (0, "none", 0), (1, None, 1)):
                continue
            if quick and kd == "ign" and len(pos):
                continue
            if quick and len(pos) == 2 and (len(pos) + va + vk + (kd is not None)) > 4 and d["a"] != "none":
                continue
            s = {"pos": pos, "defaults": dict(d), "va": va, "ko": [], "vk": vk, "ignore": []}
            if kd:
                s["ko"], s["defaults"]["c"] = ["c"], kd
            yield s
            allp = [n for n, _ in pos] + s["ko"]
            for i in range(len(allp)):
                if not quick or (i == len(allp) - 1 and s["defaults"][allp[i]] in ("none", "plain")):
                    yield dict(s, ignore=[allp[i]])


VALS = [0, 1, "r", "z", "zz", ("I", 5), ("I", 6), ("I", "r"), ("P", "p", 10), ("P", "p", 20), ("P", "q", 10), 3, True, False, 0.0]


FEW = [(k, v) for k in ("pos", "key") for v in (0, 1, "z", ("I", 5), ("P", "p", 20))] + [
    (0,), (1, ("I", 5)), ("r",), (0, 1), (("k1", 0),), (("k2", 1), ("k1", 0)), (("kw", 1), ("k1", 0)), (("args_0", 4),), (("a", 4),), (("k1", ("I", 5)),)]


def calls(s, dev, quick):
    """-> (legal calls, illegal calls); a call is (positional values, ((keyword, value), ...))"""
    dims = []      # each: list of options, first one costs nothing
    for n, k in s["pos"]:
        o = [("omit",)] if s["defaults"][n] != "none" else []
        o += [("pos", v) for v in VALS]
        if k == "pk":
            o += [("key", v) for v in VALS[:9] + [False]]
        dims.append(o)
    for n in s["ko"]:
        o = [("omit",)] if s["defaults"][n] != "none" else []
        o += [("key", v) for v in VALS]
        dims.append(o)
    if s["va"]:
        dims.append([(), (0,), (1,), (0, 1), (1, 0), ("r",), (("I", 5), 1), (1, ("I", 5)), (("P", "p", 10),), (0, 0)])
    if s["vk"]:
        o = [(), (("k1", 0),), (("k1", 1),), (("k2", 0),), (("k1", 0), ("k2", 1)), (("k2", 1), ("k1", 0)), (("k1", "r"),), (("k1", ("I", 5)),),
             (("k1", ("I", 5)), ("k2", 1)), (("kw", 0),), (("kw", 1), ("k1", 0)), (("k1", ("P", "p", 10)),)]
        if s["va"]:
            o += [(("args", 4),), (("args_0", 4),), (("args_1", 4), ("k1", 0))]
        o += [(("output_0", 4),), (("output_0", "r"), ("k1", 0))]
        for n, k in s["pos"]:
            if k == "po":
                o += [((n, 4),)]
        dims.append(o)
    few = FEW if quick else None
    sig = inspect.signature(build(s, [], "f"))
    res, seen = [], set()
    for k in range(0, dev + 1):
        for which in itertools.combinations(range(len(dims)), k):
            for alt in itertools.product(*[range(1, len(dims[i])) for i in which]):
                pick = [0] * len(dims)
                for i, a in zip(which, alt):
                    pick[i] = a
                if few and k > 1 and any(dims[i][a] not in few and dims[i][a] != ("omit",) for i, a in zip(which, alt)):
                    continue
                c = assemble(s, [d[i] for d, i in zip(dims, pick)])
                if c is None or repr(c) in seen:
                    continue
                seen.add(repr(c))
                try:
                    sig.bind(*c[0], **dict(c[1]))
                except TypeError:
                    continue
                res.append(c)
    bad = []
    for c in ([], ()), ([0, 0, 0, 0], ()), ([], (("zzz", 1),)), ([0], (("a", 1),)), ([0, 0], (("b", 1),)):
        c = (tuple(c[0]), tuple(c[1]))
        try:
            sig.bind(*c[0], **dict(c[1]))
        except TypeError:
            bad.append(c)
    return res, bad


def assemble(s, choice):
    pos, kws = [], []
    it = iter(choice)
    gap = False
    for n, k in s["pos"]:
        o = next(it)
        if o[0] == "omit":
            gap = True
        elif o[0] == "pos":
            if gap:
                return None
            pos.append(o[1])
        else:
            gap = True
            kws.append((n, o[1]))
    for n in s["ko"]:
        o = next(it)
        if o[0] == "key":
            kws.append((n, o[1]))
    if s["va"]:
        o = next(it)
        if o and gap:
            return None
        pos += o
    if s["vk"]:
        kws += next(it)
    if len({k for k, _ in kws}) < len(kws):
        return None
    return tuple(pos), tuple(kws)
