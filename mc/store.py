"""StoreWorld: drives a real storage through events, in step with the reference model."""
import os, shutil, gc, ast
from .core import Violation, Scratch, digest
from . import world as W
from .world import check, Hooks
from .model import Model, S

W.load()
from mandala.imports import Storage
from mandala.model import wrap_atom, Context, Ref, ListRef, DictRef, AtomRef, ValuePointer
from . import ops as O


def reset_globals():
    Context.current_context = None
    Hooks.reset()


class Binding:
    """a bijection between symbolic and actual ids"""
    def __init__(self, what):
        self.what, self.f, self.b = what, {}, {}

    def bind(self, sym, act):
        check(isinstance(act, str), f"{self.what} id is {act!r}")
        a = self.f.setdefault(sym, act)
        check(a == act, lambda: f"{self.what} id of {sym} was {a}, now {act}", f"{self.what} id unstable")
        s = self.b.setdefault(act, sym)
        check(s == sym, lambda: f"{self.what} id {act} stands for both {s} and {sym}", f"{self.what} id collision")


class StoreWorld:
    """params: file (bool), overflow (None or MB threshold), start (events run first),
    events (list of events), calls (list of (op, argspec...)), refs (how many results are usable)"""

    def __init__(self, params):
        reset_globals()
        self.p = dict(file=False, overflow=None, start=(), events=(), calls=(), refs=3, final=True, deep=True, frames=False)
        self.p.update(params or {})
        self.dir = Scratch.new()
        self.m = Model(O.TABLE)
        self.hids, self.cids, self.callhids = Binding("history"), Binding("content"), Binding("call")
        self.notes = {}
        self.results = []           # (S, actual) newest first, distinct histories
        self.acts = {}              # hid sym -> actual ref first seen
        self.in_ctx = False
        self.last = False
        self.frozen = False
        self.threshold = self.p["overflow"]
        self.st = self.open()
        self.enter()
        O.COUNTS.clear()
        for e in self.p["start"]:
            self.apply(e)

    # ------------------------------------------------------------ environment
    def open(self, **kw):
        path = os.path.join(self.dir, "db.sqlite") if self.p["file"] else ":memory:"
        if self.p["overflow"] is not None:
            kw = dict(overflow_dir=os.path.join(self.dir, "ov"), overflow_threshold_MB=self.threshold)
        return Storage(db_path=path, **kw)

    def enter(self):
        if not self.in_ctx:
            self.st.__enter__()
            self.in_ctx = True

    def exit(self):
        if self.in_ctx:
            self.in_ctx = False
            self.st.__exit__(None, None, None)
            self.m.commit()
            check(Context.current_context is None, "a context is still active after the block")

    def close(self):
        Context.current_context = None
        try:
            self.st.db._conn.close()
        except Exception:
            pass
        self.st = None
        shutil.rmtree(self.dir, ignore_errors=True)

    # ----------------------------------------------------------------- events
    def enabled(self):
        evs = []
        n = min(len(self.results), self.p["refs"])
        for c in self.p["calls"]:
            t = O.TABLE[c[0]]
            if all(self._argok(c[0], t[4][p], a, n) for p, a in zip(t[2], c[1:])):
                evs.append(("call",) + tuple(c))
        for e in self.p["events"]:
            if e[0] in ("drop", "drop_in"):
                i = max(e[1]) if isinstance(e[1], tuple) else e[1]
                if i < len(self.main_calls()):
                    evs.append(e)
            elif e[0] in ("reopen", "rethreshold") and not self.p["file"]:
                continue
            else:
                evs.append(e)
        return evs

    def _argok(self, op, tp, a, n):
        if not isinstance(a, tuple):
            return True
        if a[0] in ("r", "u", "e"):
            if a[1] >= n:
                return False
            s = self.results[a[1]][0]
            if a[0] == "e":
                if s.kind == "a" or len(s.items) <= a[2]:
                    return False
                s = self.sub(a)[0]
            return self._same_tp(s, tp) and (s.kind != "a" or O.takes(op, s.val))
        if a[0] == "L":
            return all(self._argok(op, tp[1], x, n) for x in a[1:])
        return all(self._argok(op, tp[1], x, n) for k, x in a[1:])

    def _same_tp(self, s, tp):
        if tp == "a":
            return s.kind == "a"
        return s.kind == tp[0] and all(self._same_tp(x, tp[1]) for x in
                                       (s.items if s.kind == "l" else s.items.values()))

    def sub(self, a):
        s, act = self.results[a[1]]
        if s.kind == "l":
            return s.items[a[2]], act[a[2]]
        k = list(s.items)[a[2]]
        return s.items[k], act[k]

    def main_calls(self):
        return sorted((c for c in self.m.calls.values()), key=lambda c: c.seq)

    def apply(self, e):
        getattr(self, "ev_" + e[0])(*e[1:])
        if self.last:
            self.after(e)

    def after(self, e):
        if self.p["final"] and not getattr(self, "done", False):
            self.final_state = self.canon_now()
            self.evs = self.enabled()
            self.done = True
            self.full_check()

    def arg(self, a):
        """-> (what the model gets, what the code gets)"""
        if isinstance(a, tuple) and a[0] == "r":
            return self.results[a[1]]
        if isinstance(a, tuple) and a[0] == "e":
            return self.sub(a)
        if isinstance(a, tuple) and a[0] == "L":
            xs = [self.arg(x) for x in a[1:]]
            return [x[0] for x in xs], [x[1] for x in xs]
        if isinstance(a, tuple) and a[0] == "D":
            xs = {k: self.arg(x) for k, x in a[1:]}
            return {k: x[0] for k, x in xs.items()}, {k: x[1] for k, x in xs.items()}
        if isinstance(a, tuple) and a[0] == "v":     # any other raw value
            v = ast.literal_eval(a[1])
            return v, v
        if isinstance(a, tuple) and a[0] == "u":     # the unwrapped value of a result
            s, act = self.results[a[1]]
            return s.val, self.st.unwrap(act)
        return a, a

    def ev_call(self, op, *args):
        self.enter()
        t = O.TABLE[op]
        margs, cargs = {}, []
        for p, a in zip(t[2], args):
            m, c = self.arg(a)
            margs[p] = m
            cargs.append(c)
        before = O.COUNTS[op]
        total = sum(O.COUNTS.values())
        known, n = dict(self.m.calls), self.m.n
        outs, runs, c = self.m.call(op, margs)
        if runs and self.frozen:
            self.m.calls, self.m.n = known, n
            try:
                self.invoke(t, cargs)
            except RuntimeError:
                check(sum(O.COUNTS.values()) == total, "a refused call ran a function")
                return
            raise Violation(f"a new call of {op} was made although new calls are not allowed", "new call allowed")
        res = self.invoke(t, cargs)
        ran = O.COUNTS[op] - before
        check(sum(O.COUNTS.values()) - total == ran, "another function ran too")
        check(ran == int(runs), lambda: f"body of {op} ran {ran} times, expected {int(runs)} for inputs "
              f"{ {k: v.val for k, v in c.ins.items()} }", f"exec:{op}:{ran}:{int(runs)}")
        acts = (res,) if len(outs) == 1 else res
        check(isinstance(acts, tuple) and len(acts) == len(outs),
              lambda: f"{op} returned {res!r} instead of {len(outs)} references")
        for s, a in zip(outs, acts):
            self.bind(s, a)
            v = self.st.unwrap(a)
            check(O.same(v, s.val),
                  lambda: f"{op} returned a reference to {v!r}, the plain function returns {s.val!r}", f"value:{op}")
        if any(e[0] == "drop_in" for e in self.p["events"]) and c.hid not in self.callhids.f:
            ins = {}
            for p_, a_ in zip(t[2], cargs):
                ins[p_] = a_ if isinstance(a_, Ref) else wrap_atom(a_)
            self.callhids.bind(c.hid, t[0].get_call_history_id(ins))
        for s, a in reversed(list(zip(outs, acts))):
            self.results = [(s, a)] + [(x, y) for x, y in self.results if x.hid != s.hid]
        del self.results[6:]

    def invoke(self, t, cargs):
        return t[0](*cargs)

    def bind(self, s, a):
        kind = {"a": AtomRef, "l": ListRef, "d": DictRef}[s.kind]
        check(isinstance(a, kind), lambda: f"expected a reference of type {kind.__name__}, got {a!r}")
        self.hids.bind(s.hid, a.hid)
        self.cids.bind(s.cid, a.cid)
        if s.kind == "l":
            check(len(a) == len(s.items), lambda: f"list has {len(a)} elements, expected {len(s.items)}")
            for x, y in zip(s.items, a.obj):
                self.bind(x, y)
        if s.kind == "d":
            check(set(a.obj.keys()) == set(s.items), lambda: f"keys {list(a.obj)} expected {list(s.items)}", "dict keys")
            for k in s.items:
                self.bind(s.items[k], a.obj[k])

    def ev_freeze(self, on):
        self.frozen = on
        self.st.allow_new_calls(not on)

    def ev_block(self):
        self.exit()
        self.enter()

    def ev_commit(self):
        self.st.commit()
        self.m.commit()

    def ev_clear(self):
        self.exit()
        self.st.clear_cache()

    def ev_clear_in(self):
        """clearing inside the block, when everything is saved"""
        self.enter()
        dirty = any(not c.durable for c in self.m.calls.values())
        if dirty:
            try:
                self.st.clear_cache()
            except ValueError:
                return
            raise Violation("clearing a cache with unsaved work was not refused")
        self.st.commit()
        self.st.clear_cache()

    def ev_forget(self):
        self.enter()
        self.st.clear_cache(allow_uncommitted=True)
        if not self.p["file"] or True:
            self.m.lose_uncommitted()
            self.results = [(s, a) for s, a in self.results if s.hid in self.m.refs() and a.in_memory]

    def ev_preload_in(self, what):
        """inside the block, with unsaved work"""
        self.enter()
        self.do_preload(what)

    def ev_preload(self, what):
        self.exit()
        self.do_preload(what)

    def do_preload(self, what):
        if what == "lazy":
            self.st.preload()
        elif what == "full":
            self.st.preload(lazy=False)
        else:
            getattr(self.st, "preload_" + what)()

    def ev_reopen(self):
        self.exit()
        self.frozen = False
        self.st = self.open()

    def ev_rethreshold(self, mb):
        self.exit()
        self.frozen = False
        self.threshold = mb
        self.st = self.open()

    def ev_detach(self):
        """forget the in-memory objects of all results"""
        self.results = [(s, a.detached() if isinstance(a, AtomRef) else a) for s, a in self.results]

    def ev_attach(self):
        self.results = [(s, self.st.attach(a) if isinstance(a, AtomRef) else a) for s, a in self.results]
        for s, a in self.results:
            if isinstance(a, AtomRef):
                check(a.in_memory and O.same(a.obj, s.val), lambda: f"attached reference holds {a.obj!r} instead of {s.val!r}")
            self.bind(s, a)

    def usable(self):
        """results can be used later if their value is in memory or still saved"""
        refs = self.m.refs()
        self.results = [(s, a) for s, a in self.results if s.hid in refs]

    def ev_drop(self, i, deps, form="hids"):
        self.exit()
        if self.p.get("discover"):
            self.queries("this session", deep=False)    # learn the ids of all calls
        if isinstance(i, tuple):
            cs = [self.main_calls()[j] for j in i if j < len(self.main_calls())]
        else:
            cs = [self.main_calls()[i]]
        self.drop(cs, deps, form)

    def drop(self, cs, deps, form):
        hids = [self.real_call_hid(c) for c in cs]
        if form == "calls":
            arg = [self.st.get_call(h, lazy=True) for h in hids]
        elif form == "set":
            arg = set(hids)
        elif form == "iter":
            arg = iter(hids)
        elif form == "gencalls":
            arg = iter([self.st.get_call(h, lazy=True) for h in hids])
        else:
            arg = hids
        self.st.drop_calls(arg, delete_dependents=deps)
        gone = {c.hid for c in cs}
        if deps:
            gone = self.m.dependents(gone)
        self.m.drop(gone)

    def ev_drop_cf(self, op, form):
        """all calls of a function, through computation frames; with dependents"""
        self.exit()
        self.queries("this session", deep=False)
        mine = {c.hid for c in self.m.calls.values() if c.op == op}
        if not mine:
            return
        cf = self.st.cf(O.TABLE[op][0])
        if form == "frame":
            cf.delete_calls()
        else:
            cf = cf.expand_all()
            df = cf.df(values="objs" if form == "objs" else "refs")
            nodes = [f for f, o in cf.ops().items() if o.name == op]
            cf.delete_calls_from_df(df[nodes])
        self.m.drop(self.m.dependents(mine))

    def ev_drop_in(self, i, deps):
        """inside the block, calls possibly not saved yet"""
        self.enter()
        c = self.main_calls()[i]
        o = next(iter(c.outs.values()))
        hid = self.callhids.f.get(c.hid)
        if hid is None:
            return
        self.st.drop_calls([hid], delete_dependents=deps)
        self.m.drop(self.m.dependents({c.hid}) if deps else {c.hid})

    def ev_cleanup(self):
        self.exit()
        self.st.cleanup_refs()
        self.usable()
        self.cleaned = True

    def real_call_hid(self, c):
        """the actual id of a call: found through the creators of its outputs"""
        if c.hid not in self.callhids.f:
            o = next(iter(c.outs.values()))
            hs = [x.hid for x in self.st.get_creators([self.hids.f[o.hid]])]
            check(len(hs) == 1, lambda: f"{len(hs)} creators of an output of {c.op}", "creator count")
            self.callhids.bind(c.hid, hs[0])
        return self.callhids.f[c.hid]

    # ----------------------------------------------------------------- oracle
    def known_refs(self):
        """model references whose actual id has been seen"""
        res = {}
        for h, s in self.m.refs().items():
            if h in self.hids.f:
                res[h] = s
        return res

    def check_call(self, c, a):
        """a model call against an actual call"""
        self.callhids.bind(c.hid, a.hid)
        self.cids.bind(c.cid, a.cid)
        check(a.op.name == c.op, lambda: f"call of {a.op.name} expected {c.op}")
        for mine, theirs, w in ((c.ins, a.inputs, "input"), (c.outs, a.outputs, "output")):
            check(set(mine) == set(theirs), lambda: f"{w}s of {c.op}: {sorted(theirs)} expected {sorted(mine)}", f"{w} names")
            for k in mine:
                self.bind(mine[k], theirs[k])
                v = self.st.unwrap(theirs[k])
                check(O.same(v, mine[k].val),
                      lambda: f"{w} {k} of {c.op} reads {v!r} expected {mine[k].val!r}", f"{w} value")

    def full_check(self):
        """leaves the block; compares everything that can be queried with the model,
        in this session and in a fresh one"""
        self.exit()
        if self.p["deep"] or not self.p["file"]:
            self.queries("this session")
        if self.p["file"]:
            self.st = self.open()
            self.queries("a fresh session")

    def queries(self, where, deep=None):
        deep = self.p["deep"] if deep is None else deep
        refs = self.known_refs()
        try:
          while True:
            # all calls, found from all references
            allh = [self.hids.f[h] for h in refs]
            by_out = {}
            for a in self.st.get_creators(allh):
                check(a.hid not in by_out, "a call is returned twice")
                by_out[a.hid] = a
            want = {}
            for c in self.m.calls.values():
                if any(o.hid in refs for o in c.outs.values()):
                    want[c.hid] = c
            # match by an output reference
            n = 0
            outmap = {}
            for a in by_out.values():
                for o in a.outputs.values():
                    check(o.hid not in outmap, lambda: f"two calls create the reference {o.hid}", "two creators")
                    outmap[o.hid] = a
            for c in want.values():
                a = None
                for o in c.outs.values():
                    if o.hid in self.hids.f:
                        a = outmap.get(self.hids.f[o.hid])
                        break
                check(a is not None, lambda: f"no creator for an output of {c.op}({ {k: v.val for k, v in c.ins.items()} })", "creator missing")
                self.check_call(c, a)
                n += 1
            check(n == len(by_out), lambda: f"{len(by_out)} creator calls, expected {n}: "
                  f"{sorted(a.op.name for a in by_out.values())} vs {sorted(c.op for c in want.values())}", "extra calls")
            new = self.known_refs()
            if len(new) == len(refs):
                break
            refs = new
          if deep:
                for h, s in refs.items():
                    act = self.hids.f[h]
                    cr = {a.hid for a in self.st.get_creators([act])}
                    mine = {self.callhids.f[x] for x in self.m.creators({h})}
                    check(cr == mine, lambda: f"creators of {s.val!r}: {len(cr)} expected {len(mine)}", "creators")
                    l = self.st.get_consumers([act])
                    co = [a.hid for a in l]
                    mine = {self.callhids.f[x] for x in self.m.consumers({h}) if x in self.callhids.f}
                    check(len(co) == len(set(co)) and set(co) == mine,
                          lambda: f"consumers of {s.val!r}: {[a.op.name for a in l]} expected {len(mine)}", "consumers")
                    r = self.st.load_ref(act)
                    self.bind(s, r)
                    v = self.st.unwrap(r)
                    check(O.same(v, s.val), lambda: f"reference reads {v!r} expected {s.val!r}", "load value")
                allcons = self.st.get_consumers(allh)
                if self.p["frames"]:
                    self.frames(allh)
                check(sorted(a.hid for a in allcons) == sorted({self.callhids.f[x] for x in self.m.consumers(set(refs)) if x in self.callhids.f}),
                      "consumers of all references", "consumers all")
        except Violation as v:
            raise Violation(f"in {where}: {v.msg}", v.sig)

    def frames(self, allh):
        """computation frames of each function and of everything"""
        for op in sorted({c[0] for c in self.p["calls"]} | {c[1] for c in self.p["start"] if c[0] == "call"}):
            mine = [c for c in self.m.calls.values() if c.op == op]
            cf = self.st.cf(O.TABLE[op][0])
            got = {h for hs in cf.fs.values() for h in hs}
            check(got == {self.callhids.f.get(c.hid) for c in mine}, lambda: f"the frame of {op} has {len(got)} calls, {len(mine)} are saved", "frame calls")
            got = {h for hs in cf.vs.values() for h in hs}
            want = {self.hids.f[r.hid] for c in mine for r in list(c.ins.values()) + list(c.outs.values())}
            check(got == want, lambda: f"the frame of {op} has {len(got)} references, {len(want)} are in its calls", "frame references")
        if allh:
            cf = self.st.cf([self.st.load_ref(h) for h in allh]).expand_all()
            got = {h for hs in cf.fs.values() for h in hs}
            want = {self.callhids.f[c] for c in self.m.calls if c in self.callhids.f}
            check(got == want, lambda: f"the frame of all references has {len(got)} calls, {len(want)} are saved", "frame of all")

    # ------------------------------------------------------------------ state
    def impl_key(self):
        st = self.st
        try:
            c = st.calls
            return (tuple(sorted(self.callsym(h) for h in c.cache.call_hids)), tuple(sorted(map(self.callsym, c.dirty_hids))),
                    tuple(sorted(map(self.hidsym, st.shapes.cache))), tuple(sorted(map(self.hidsym, st.shapes.dirty_keys))),
                    tuple(sorted(map(self.cidsym, st.atoms.cache))), tuple(sorted(map(self.cidsym, st.atoms.dirty_keys))),
                    tuple(sorted(st.ops.cache)), tuple(sorted(st.ops.dirty_keys)))
        except AttributeError:
            return None      # internals renamed: do not merge states

    def callsym(self, h):
        return h[:12]

    def hidsym(self, h):
        return h[:12]

    def cidsym(self, c):
        return c[:12]

    def canon_now(self):
        k = self.impl_key()
        return (sorted((digest(c.hid), c.durable, c.seq) if self.need_seq() else (digest(c.hid), c.durable) for c in self.m.calls.values()),
                [(digest(s.hid), a.in_memory) for s, a in self.results[:self.p["refs"]]],
                self.in_ctx, self.frozen, self.threshold, getattr(self, "cleaned", False), k if k is not None else id(self))

    def need_seq(self):
        return any(e[0] in ("drop", "drop_in") for e in self.p["events"])

    def canon(self):
        if getattr(self, "done", False):
            return self.final_state
        return self.canon_now()


_enabled = StoreWorld.enabled


def enabled(self):
    if getattr(self, "done", False) and hasattr(self, "evs"):
        return self.evs
    return _enabled(self)


StoreWorld.enabled = enabled
