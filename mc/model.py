"""Reference model of the storage: what calls and references exist, symbolically.
A reference is known by the way it was made; nothing here looks at the implementation."""

import numpy as np, pandas as pd


class S:
    """symbolic reference"""
    __slots__ = ("kind", "val", "cid", "hid", "items")

    def __init__(self, kind, val, cid, hid, items=None):
        self.kind, self.val, self.cid, self.hid, self.items = kind, val, cid, hid, items

    def with_hid(self, hid):
        return S(self.kind, self.val, self.cid, hid, self.items)

    def walk(self):
        yield self
        if self.items:
            for x in (self.items if self.kind == "l" else self.items.values()):
                yield from x.walk()


def text(v):
    """a canonical text of plain values: order of dictionaries does not count"""
    if isinstance(v, dict):
        return "{" + ",".join(sorted(text(k) + ":" + text(x) for k, x in v.items())) + "}"
    if type(v) in (list, tuple):
        return type(v).__name__ + "(" + ",".join(map(text, v)) + ")"
    if isinstance(v, np.ndarray):
        return f"{v.dtype}{v.shape}{v.tolist()}"
    if isinstance(v, pd.DataFrame):
        return text({c: list(map(str, v[c])) for c in v.columns}) + str(list(v.index))
    return repr(v)


def content_of(v):
    # an empty list is the same content as a value and as a collection
    return ("L", ()) if type(v) is list and not v else ("v", type(v).__name__, text(v))


def atom(v, hid=None):
    cid = content_of(v)
    return S("a", v, cid, hid or ("h", cid))


class C:
    __slots__ = ("op", "hid", "cid", "ins", "outs", "durable", "seq")

    def __init__(self, op, hid, cid, ins, outs):
        self.op, self.hid, self.cid, self.ins, self.outs = op, hid, cid, ins, outs
        self.durable, self.seq = False, 0


def _key(kind, op, ins, attr):
    return (kind, op, tuple(sorted((k, getattr(v, attr)) for k, v in ins.items())))


def coll_cid(kind, cids):
    """content of a collection. (Known finding of M02: empty lists and empty dictionaries
    share one content id; they are one symbol here, and M02 reports them on their own.)"""
    return (kind, cids) if cids else ("L", ())


class Model:
    def __init__(self, table):
        self.table = table
        self.calls = {}
        self.n = 0

    def has_content(self, cid):
        return any(c.cid == cid for c in self.calls.values())

    def _mk(self, op, ins, outs_of):
        hid, cid = _key("c", op, ins, "hid"), _key("k", op, ins, "cid")
        return C(op, hid, cid, ins, outs_of(hid))

    def build(self, tp, val):
        """an argument: -> (reference, structural calls)"""
        if isinstance(val, S):
            return val, []
        if tp == "a":
            return atom(val), []
        calls, items = [], {}
        it = enumerate(val) if tp[0] == "l" else val.items()
        for k, v in it:
            items[k], cs = self.build(tp[1], v)
            calls += cs
        if tp[0] == "l":
            elts = list(items.values())
            cid = ("L", tuple(e.cid for e in elts))
            c = self._mk("__make_list__", {f"elts_{i}": e for i, e in enumerate(elts)}, lambda h: {
                "list": S("l", [e.val for e in elts], cid, ("o", h, "list"), elts)})
            return c.outs["list"], calls + [c]
        cid = coll_cid("D", tuple(sorted((k, e.cid) for k, e in items.items())))
        c = self._mk("__make_dict__", {("*" + k if k.lstrip("*") == "dict" else k): e for k, e in items.items()}, lambda h: {
            "dict": S("d", {k: e.val for k, e in items.items()}, cid, ("o", h, "dict"), items)})
        return c.outs["dict"], calls + [c]

    def content(self, tp, val):
        if tp == "a":
            return content_of(val)
        if tp[0] == "l":
            return ("L", tuple(self.content(tp[1], v) for v in val))
        return coll_cid("D", tuple(sorted((k, self.content(tp[1], v)) for k, v in val.items())))

    def out(self, tp, val, hid):
        """an output with the given history: -> (reference, structural calls)"""
        if tp == "a":
            return atom(val, hid), []
        calls = []
        me = S(tp[0], val, self.content(tp, val), hid, [] if tp[0] == "l" else {})
        it = list(enumerate(val)) if tp[0] == "l" else list(val.items())
        for k, v in it:
            if tp[0] == "l":
                name, ins, o = "__list_getitem__", {"list": me, "i": atom(k)}, "list_item"
            else:
                name, ins, o = "__dict_getitem__", {"dict": me, "key": atom(k)}, "dict_value"
            sub = []

            def outs_of(h):
                e, cs = self.out(tp[1], v, ("o", h, o))
                sub.extend(cs)
                return {o: e}
            c = self._mk(name, ins, outs_of)
            calls.append(c)
            calls += sub
            if tp[0] == "l":
                me.items.append(c.outs[o])
            else:
                me.items[k] = c.outs[o]
        return me, calls

    def call(self, op, args):
        """args: name -> S or plain value (defaults filled in).
        -> (output references, must the body run?, the call)"""
        _, f, params, defaults, tps, onames, otps = self.table[op]
        new, ins = [], {}
        for p in params:
            ins[p], cs = self.build(tps[p], args[p] if p in args else defaults[p])
            new += cs
        vals = f(**{p: r.val for p, r in ins.items()})
        if len(onames) == 1:
            vals = (vals,)
        sub = []

        def outs_of(h):
            d = {}
            for n, t, v in zip(onames, otps, vals):
                d[n], cs = self.out(t, v, ("o", h, n))
                sub.extend(cs)
            return d
        c = self._mk(op, ins, outs_of)
        runs = c.hid not in self.calls and not self.has_content(c.cid)
        # the links of output collections are made together with the call
        for x in [c] + new + (sub if c.hid not in self.calls else []):
            if x.hid not in self.calls:
                self.n += 1
                x.seq = self.n
                self.calls[x.hid] = x
        c = self.calls[c.hid]
        return [c.outs[n] for n in onames], runs, c

    def commit(self):
        for c in self.calls.values():
            c.durable = True

    def lose_uncommitted(self):
        self.calls = {h: c for h, c in self.calls.items() if c.durable}

    # -- graph
    def refs(self):
        res = {}
        for c in self.calls.values():
            for r in list(c.ins.values()) + list(c.outs.values()):
                for x in r.walk():
                    res[x.hid] = x
        return res

    def creators(self, hids):
        return {c.hid for c in self.calls.values() if any(o.hid in hids for o in c.outs.values())}

    def consumers(self, hids):
        return {c.hid for c in self.calls.values() if any(o.hid in hids for o in c.ins.values())}

    def dependents(self, hids):
        res, todo = set(hids), list(hids)
        while todo:
            h = todo.pop()
            if h not in self.calls:
                continue
            outs = {o.hid for o in self.calls[h].outs.values()}
            for c in self.consumers(outs) - res:
                res.add(c)
                todo.append(c)
        return res

    def drop(self, hids):
        for h in hids:
            self.calls.pop(h, None)
