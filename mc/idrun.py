"""Runs programs in a process of its own (hash seed, storage, spelling given by the
caller) and reports which symbolic identity got which actual id."""
import sys, json, os, ast
from . import core, world, store
from .store import StoreWorld
from .core import Violation


class IdWorld(StoreWorld):
    spelling = 0

    def invoke(self, t, cargs):
        params, defaults = t[2], t[3]
        named = dict(zip(params, cargs))
        if self.spelling == 0:                       # positional, everything given
            full = [named[p] if p in named else defaults[p] for p in params]
            return t[0](*full)
        if self.spelling == 1:                       # as given, defaults left out
            return t[0](*cargs)
        for p, d in defaults.items():                # keywords, defaults left out where possible
            if p in named and type(named[p]) is type(d) and named[p] == d:
                del named[p]
        if self.spelling == 2:
            return t[0](**named)
        if self.spelling == 3:                       # keywords in reverse
            return t[0](**{p: named[p] for p in reversed(list(named))})
        full = dict(defaults, **named)               # a positional head, keywords for the rest
        return t[0](full.pop(params[0]), **full)

    def pairs(self):
        for k, b in (("history", self.hids), ("content", self.cids), ("call", self.callhids)):
            for s, a in b.f.items():
                yield k, s, a


def run_one(cfg, prog):
    """the program in a first session, then again in a second one"""
    p = dict(file=cfg["file"], overflow=cfg["overflow"], deep=False, discover=True)
    w = IdWorld(p)
    try:
        w.spelling = cfg["spelling"]
        for e in prog:
            w.apply(e)
        w.exit()
        w.queries("this session")
        if cfg["file"]:
            w.st = w.open()
        else:
            w.st.clear_cache()
        first = dict(w.hids.f)
        w.results = []
        w.spelling = cfg["again"]
        for e in prog:
            w.apply(e)
        w.exit()
        w.queries("the second session")
        # every reference made by a call has one creator, raw values have none
        for h, s in w.known_refs().items():
            n = len(w.st.get_creators([w.hids.f[h]]))
            m = len(w.m.creators({h}))
            if n != (1 if m else 0) or m > 1:
                raise Violation(f"reference {h} has {n} creators, {m} expected", "creators")
        return list(w.pairs())
    finally:
        w.close()


def main():
    import resource
    job = json.load(sys.stdin)
    world.quiet()
    out = sys.__stdout__
    res = {"pairs": [], "viol": None, "n": 0}
    seen = {}
    for i, pr in enumerate(job["progs"]):
        prog = ast.literal_eval(pr)
        kind, val = core.guarded(lambda a: run_one(job["cfg"], a), prog)
        res["n"] += 1
        if kind != "ok":
            res["viol"] = (kind, val if kind == "viol" else (val, "err"), pr)
            break
        for k, s, a in val:
            if seen.setdefault((k, repr(s)), a) != a:
                res["viol"] = ("viol", (f"{k} id of {s} was {seen[(k, repr(s))]}, now {a}", f"{k} id unstable"), pr)
            elif (k, repr(s), a) not in seen:
                seen[(k, repr(s), a)] = 1
                res["pairs"].append((k, repr(s), a, i))
    json.dump(res, out)
    out.flush()


if __name__ == "__main__":
    main()
