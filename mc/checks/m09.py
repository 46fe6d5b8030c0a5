"""M09: cleanup removes exactly what no call refers to."""
import os
from ..store import StoreWorld, O
from ..world import check

LEVEL = "model_checking"
BOUNDS = "all event histories up to the depth given per part"
R0, R1, R2 = ("r", 0), ("r", 1), ("r", 2)


class CleanWorld(StoreWorld):
    def ev_cleanup(self):
        super().ev_cleanup()
        self.just_cleaned = True

    def apply(self, e):
        self.just_cleaned = False
        super().apply(e)

    def queries(self, where, deep=None):
        super().queries(where, deep)
        if not self.just_cleaned or deep is False:
            return
        # what remains is exactly what is connected to a call
        refs = self.m.refs()
        known = {h for h in refs if h in self.hids.f}
        if len(known) < len(refs):
            return   # some identities were never seen
        hids = {self.hids.f[h] for h in refs}
        got = set(self.st.shapes.persistent.keys())
        check(got == hids, lambda: f"{len(got)} references are stored, {len(hids)} are connected to calls "
              f"(extra {[self.hids.b.get(x, x) for x in got - hids]}, missing {[self.hids.b.get(x) for x in hids - got]})", "stored references")
        cids = {self.cids.f[s.cid] for s in refs.values() if s.kind == "a"}
        keys = list(self.st.atoms.persistent.keys())
        got = set(keys)
        check(got == cids, lambda: f"{len(got)} values are stored, {len(cids)} are used "
              f"(extra {[self.cids.b.get(x, x) for x in got - cids]}, missing {[self.cids.b.get(x) for x in cids - got]})", "stored values")
        if self.p["overflow"] is not None:
            files = {f for f in os.listdir(os.path.join(self.dir, "ov"))}
            check(len(files) <= len(cids), lambda: f"{len(files)} value files for {len(cids)} values", "value files")


GRAPHS = {
    "shared contents": [("call", "inc", 0), ("call", "par", 1), ("call", "inc", R0), ("call", "two", R0, R1)],
    "collections": [("call", "mk", 0), ("call", "tot", R0), ("call", "tot", ("L", R0, 1))],
    "dictionaries": [("call", "mkd", 0), ("call", "totd", R0), ("call", "totd", ("D", ("p", R0)))],
    "nested": [("call", "nest", 1), ("call", "tot", ("e", 0, 1))],
    "large": [("call", "big", 0), ("call", "big", 1), ("call", "size", R0), ("call", "big", R0)],
}


def run(ctx):
    for g, calls in GRAPHS.items():
        for ov in ((None, 0.001) if g == "large" else (None,) if ctx.quick else (None, 0)):
            p = dict(file=True, overflow=ov, start=tuple(calls) + (("block",),), refs=4, discover=True,
                     events=[("cleanup",), ("reopen",), ("clear",)] +
                     [("drop", i, False) for i in range(ctx.pick(4, 8))] + [("drop", i, True) for i in (0, 2)],
                     calls=[tuple(calls[0][1:]), tuple(calls[1][1:]), ("inc", 2)])
            ctx.bfs(f"{g} {ov}", CleanWorld, ctx.pick(3, 4) if g not in ("nested", "dictionaries") or not ctx.quick else 2, p)
    ctx.bfs("in memory", CleanWorld, ctx.pick(3, 4), dict(p, file=False, overflow=None))
