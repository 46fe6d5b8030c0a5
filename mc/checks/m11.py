"""M11: provenance queries against the reference call graph."""
import itertools
from ..store import StoreWorld, O
from ..world import check

LEVEL = "model_checking"
BOUNDS = "all programs up to the depth given per part; all subsets of up to the stated number of references"
R0, R1, R2 = ("r", 0), ("r", 1), ("r", 2)


class ProvWorld(StoreWorld):
    def queries(self, where, deep=None):
        super().queries(where, deep)
        if deep is False:
            return
        refs = sorted(self.known_refs())
        names = {a: s for s, a in self.callhids.f.items()}
        inv = self.hids.b
        # all subsets of the references
        fresh = "fresh" in where
        some = refs[:5] + refs[-2:]
        for n in range(0, 4 if fresh or not self.p['file'] else 2):
            for sub in itertools.combinations(dict.fromkeys(some), n):
                act = [self.hids.f[h] for h in sub]
                for q, mine in ((self.st.get_creators, self.m.creators), (self.st.get_consumers, self.m.consumers)):
                    got = [names.get(c.hid, c.hid) for c in q(act)]
                    want = mine(set(sub))
                    check(len(got) == len(set(got)) and set(got) == want,
                          lambda: f"{q.__name__} of {n} references in {where}: {len(got)} calls, expected {len(want)}", f"{q.__name__} set")
        for h in refs:
            ref = self.st.load_ref(self.hids.f[h], in_memory=True)
            c = self.st.get_ref_creator(ref)
            mine = self.m.creators({h})
            check((c is None) == (not mine) and (c is None or names[c.hid] in mine), "creator of a single reference", "ref creator")
            if c is not None:
                self.check_call(self.m.calls[names[c.hid]], c)
        # closures
        if not fresh:
            return
        for h in refs:
            a = self.hids.f[h]
            for fn, f in (("get_dependencies", self.back), ("get_dependents", self.forth)):
                r, c = getattr(self.st.call_storage, fn)(ref_hids={a}, call_hids=set())
                wr, wc = f({h}, set())
                check({inv.get(x, x) for x in r} == wr and {names.get(x, x) for x in c} == wc,
                      lambda: f"{fn} of a reference: {len(r)} refs {len(c)} calls, expected {len(wr)}, {len(wc)}", fn)
        for h in self.m.calls:
            if h not in self.callhids.f:
                continue
            a = self.callhids.f[h]
            for fn, f in (("get_dependencies", self.back), ("get_dependents", self.forth)):
                r, c = getattr(self.st.call_storage, fn)(ref_hids=set(), call_hids={a})
                wr, wc = f(set(), {h})
                check({inv.get(x, x) for x in r} == wr and {names.get(x, x) for x in c} == wc,
                      lambda: f"{fn} of a call: {len(r)} refs {len(c)} calls, expected {len(wr)}, {len(wc)}", fn)

    def back(self, refs, calls):
        refs, calls = set(refs), set(calls)
        while True:
            c2 = calls | self.m.creators(refs)
            r2 = refs | {o.hid for h in c2 for o in self.m.calls[h].ins.values()}
            if (r2, c2) == (refs, calls):
                return refs, calls
            refs, calls = r2, c2

    def forth(self, refs, calls):
        refs, calls = set(refs), set(calls)
        while True:
            c2 = calls | self.m.consumers(refs)
            r2 = refs | {o.hid for h in c2 for o in self.m.calls[h].outs.values()}
            if (r2, c2) == (refs, calls):
                return refs, calls
            refs, calls = r2, c2


def run(ctx):
    ctx.bfs("programs", ProvWorld, ctx.pick(3, 4), dict(file=True, events=[("reopen",)], calls=[
        ("inc", 0), ("inc", R0), ("two", R0, R1), ("two", R0, R0), ("add", R1, R0), ("par", 2)]))
    ctx.bfs("collections", ProvWorld, ctx.pick(3, 4), dict(file=True, events=[], discover=True, calls=[
        ("mk", 0), ("tot", R0), ("inc", ("e", 0, 1)), ("tot", ("L", ("e", 0, 0), 1)), ("mkd", 0), ("totd", ("D", ("p", 0)))]))
    ctx.bfs("with deletions and caches", ProvWorld, ctx.pick(2, 3), dict(file=True, start=(
        ("call", "inc", 0), ("call", "two", R0, 1), ("call", "add", R0, R1), ("block",)),
        events=[("drop", 0, False), ("drop", 1, False), ("drop", 1, True), ("clear",), ("preload", "calls"), ("reopen",), ("cleanup",)],
        calls=[("inc", 0), ("inc", R0), ("add", R0, R1)]))
