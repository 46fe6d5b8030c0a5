"""V04: the history of a piece of code is a faithful, content-addressed tree. All
sequences of commits, synchronizations with every decision, and checkouts on a DAG, and
all histories of edits, decisions and calls through a versioned storage, against a
reference tree."""
import builtins, copy, io, contextlib, pickle
from ..vers import VWorld, VRun
from .. import projects
from ..world import check, load
load()
from mandala.deps.shallow_versions import DAG

LEVEL = "model_checking"
BOUNDS = "all histories up to the stated depth over the stated texts"
ASSUMPTIONS = ["code does not change while a block is open"]

TEXTS = {
    "code": ["def f():\n    return 1", "def f():\n    return 2", "", "def f():\n\n    # é\n    return 1\n", "def f():\n    return 1\n"],
    "global_variable": [("h1", "1"), ("h2", "1"), ("h3", "[1, ...]"), ("", ""), ("h5", "--- x\n+++ y")],
}


def answering(answers):
    it = iter(answers)

    def inp(*a):
        asked.append(1)
        return next(it)
    asked = []
    return asked, inp


@contextlib.contextmanager
def user(answers):
    asked, inp = answering(answers)
    old, builtins.input = builtins.input, inp
    try:
        yield asked
    finally:
        builtins.input = old


class Tree:
    def __init__(self, root):
        self.parent, self.sem, self.head, self.order = {root: None}, {}, root, [root]

    def add(self, t, semantic):
        self.parent[t], self.sem[t] = self.head, semantic
        self.head = t
        self.order.append(t)

    def rep(self, t):
        while self.parent[t] is not None and not self.sem[t]:
            t = self.parent[t]
        return t


class DagWorld:
    """params: kind, n (number of texts)"""
    def __init__(self, params):
        self.kind, n = params["kind"], params["n"]
        self.texts = TEXTS[self.kind][:n] if not params.get("rev") else TEXTS[self.kind][::-1][:n]
        self.d = DAG(content_type=self.kind)
        h = self.d.init(initial_content=self.texts[0])
        self.hash = {0: h}
        self.t = Tree(0)
        self.last = False
        self.verify()

    def close(self):
        pass

    def enabled(self):
        evs = [("pickle",), ("copy",)] if self.last else []
        for i in range(len(self.texts)):
            if i in self.t.parent:
                evs += [("checkout", i), ("sync", i, None, "")]
            else:
                evs += [("commit", i, True, ""), ("commit", i, False, ""), ("sync", i, True, ""), ("sync", i, False, "")]
                evs += [("sync", i, None, a) for a in ("y", "n", "a", ("maybe", "Y "), ("", "yes", "n"), ("x", "A"))] + [("commit", i, None, "a")]
        return evs

    def apply(self, e):
        d = self.d
        if e[0] == "pickle":
            self.d = pickle.loads(pickle.dumps(d))
        elif e[0] == "copy":
            self.d = copy.deepcopy(d)
        elif e[0] == "checkout":
            d.checkout(self.hash[e[1]])
            self.t.head = e[1]
        else:
            op, i, sem, ans = e
            known = i in self.t.parent
            ans = list(ans)
            final = (ans[-1].strip().lower() if ans else None)
            with user(ans) as asked:
                try:
                    h = getattr(d, op)(self.texts[i], is_semantic_change=sem)
                except ValueError:
                    check(final == "a", f"{e} refused")
                    h = None
            check(len(asked) == len(ans), f"{e}: asked {len(asked)} times", "number of questions")
            if h is None:
                pass
            elif known:
                check(final is None, "no decision needed")
                self.t.head = i
            else:
                check(final != "a", f"{e}: done in spite of the refusal")
                self.t.add(i, sem if sem is not None else final == "y")
                self.hash[i] = h
        try:
            d.checkout("not there")
            check(False, "checked out an unknown version")
        except ValueError:
            pass
        self.verify()

    def verify(self):
        d, t = self.d, self.t
        check(set(d.commits) == set(self.hash.values()) and len(set(self.hash.values())) == len(self.hash), "versions lost or shared", "nodes")
        check(d.head == self.hash[t.head], "wrong current version", "head")
        check(d.get_current_content() == self.texts[t.head], "wrong current text", "text")
        check(d.size == len(t.parent) and d.semantic_size == len({t.rep(i) for i in t.parent}), "sizes differ", "sizes")
        nb = d._get_tree_neighbors_representation()
        for i in t.parent:
            h = self.hash[i]
            check(d.get_content(h) == self.texts[i], f"text {i} is not recovered: {d.get_content(h)!r}", "text")
            c = d.commits[h]
            check(c.parents == ([] if t.parent[i] is None else [self.hash[t.parent[i]]]), "wrong parent", "parent")
            check((t.parent[i] is None and h == d.initial_commit) or h in nb.get(self.hash[t.parent[i]], ()), "not in the tree", "parent")
            for j in t.parent:
                same = d.commits[self.hash[j]].semantic_hash == c.semantic_hash
                check(same == (t.rep(i) == t.rep(j)), f"texts {i}, {j}: interchangeable {same}", "classes")
            for diff in (False, True):
                text, _ = d.get_commit_presentation(h, diff_only=diff)
                check(("===HEAD===" in text) == (i == t.head), "the current version is marked wrongly", "presentation")
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            d.show(plain=True, include_metadata=True)
        for i in t.parent:
            check(out.getvalue().count("content_commit=" + self.hash[i] + "\n") == 1 or not self.hash[i], "history shown is incomplete", "presentation")
        d.check_invariants()

    def canon(self):
        t = self.t
        return t.head, sorted((k, str(v), t.sem.get(k)) for k, v in t.parent.items())


class HistWorld(VWorld):
    """through a storage; decisions per component"""
    def enabled(self):
        evs = super().enabled()
        r = self.r
        if len(r.m.questions()) == 2:
            evs += [("M", a) for a in ("yn", "ny", "ya", "na")]
        for name in self.p.get("single", ()):
            k = ("va", name)
            if k in r.m.dags:
                new = r.m.now(k) not in r.m.dags[k].cls
                evs += [("SC", name, x) for x in ((True, False, "y", "n", "a") if new else (None,))]
        return evs

    def mapping(self, st, only=None):
        """component -> {content: hash}, checked"""
        r, res = self.r, {}
        v = st.get_versioner()
        check(set(v.component_dags) == set(r.m.dags), lambda: f"histories for {sorted(v.component_dags)}, expected {sorted(r.m.dags)}", "components")
        for k, ref in r.m.dags.items():
            d = v.component_dags[k]
            d.check_invariants()
            got = {}
            for h in d.commits:
                t = r.text(v, k, h)
                if k in r.oracle.globals:
                    t = [c for c in ref.cls if c[c.index(":"):] == t]
                    check(len(t) == 1, "unexpected text")
                    t = t[0]
                else:
                    check(st.get_code(h, show=False) == t, "get_code gives another text", "get_code")
                check(t not in got, lambda: f"{k}: two versions for {t!r}", "version twice")
                got[t] = h
            check(set(got) - {"<missing>"} == set(ref.cls) - {"<missing>"}, lambda: f"{k}: has texts {sorted(got)}, expected {sorted(ref.cls)}", "texts")
            res[k] = got
        return v, res

    def verify(self, st):
        r = self.r
        v, maps = self.mapping(st)
        for k, ref in r.m.dags.items():
            d, got = v.component_dags[k], maps[k]
            check(d.head == got[ref.head], lambda: f"{k}: current version is not {ref.head!r}", "head")
            for a in got:
                p = ref.parent[a]
                check(d.commits[got[a]].parents == ([] if p is None else [got[p]]), lambda: f"{k}: wrong parent of {a!r}", "parent")
                for b in got:
                    check((d.commits[got[a]].semantic_hash == d.commits[got[b]].semantic_hash) == (ref.cls[a] == ref.cls[b]),
                          lambda: f"{k}: {a!r} and {b!r} interchangeable?", "classes")
        for op in r.oracle.ops:
            if r.oracle.ops[op].key in r.m.dags:
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    st.source_history(r.real_op(op), plain=True, show_commit_ids=True)
                    st.versions(r.real_op(op), plain=True)
                for t, h in maps[r.oracle.ops[op].key].items():
                    check(out.getvalue().count(f"content_commit={h}\n") == 1 and t.split("\n")[-1].strip() in out.getvalue(),
                          f"history of {op} is incomplete", "presentation")

    def apply(self, e):
        super().apply(e)
        if self.last and not self.dead and e[0] != "E":
            self.verify(self.r.st)
            st = self.r.open()
            try:
                self.verify(st)
            finally:
                st.db._conn.close() if getattr(st.db, "_conn", None) else None

    def other(self, e):
        r = self.r
        r.m.oracle = r.oracle
        if e[0] == "M":
            qs = r.m.questions()
            with user(e[1]) as asked:
                try:
                    with r.st:
                        pass
                    done = True
                except ValueError:
                    done = False
            check(len(asked) == 2, "questions", "number of questions")
            check(done == ("a" not in e[1]), "refusal ignored")
            if not done:
                return
            # which change got which answer depends on an order that is not specified
            v = r.st.get_versioner()
            heads = {k: d.head for k, d in r.m.dags.items()}
            sem = {}
            for k, d in r.m.dags.items():
                dag = v.component_dags[k]
                if k in qs:
                    c = dag.commits[dag.head]
                    check(len(c.parents) == 1, "no parent", "parent")
                    sem[k] = c.semantic_hash == c.content_hash
            check(sorted(sem.values()) == [False, True], f"one semantic change, one not: {sem}", "decision not followed")
            for k, d in r.m.dags.items():
                d.sync(r.m.now(k), "y" if sem.get(k, True) else "n")
        elif e[0] == "SC":
            k = ("va", e[1])
            now = r.m.now(k)
            new = now not in r.m.dags[k].cls
            sem = e[2] if e[2] in (True, False, None) else None
            with user([e[2]] if isinstance(e[2], str) else []) as asked:
                try:
                    h = r.st.sync_component(r.fn(e[1]), sem)
                    check(e[2] != "a", "refusal ignored")
                except ValueError:
                    check(e[2] == "a", "refused")
                    return
            check(len(asked) == isinstance(e[2], str), "questions", "number of questions")
            r.m.dags[k].sync(now, "n" if e[2] in (False, "n") else "y")
            check(r.st.get_code(h, show=False) == now, "another version", "get_code")


PARTS = {}


def run(ctx):
    for kind in TEXTS:
        ctx.bfs(f"tree of {kind}", DagWorld, ctx.pick(5, 6), dict(kind=kind, n=ctx.pick(4, 5)), 16)
        ctx.bfs(f"tree of {kind}, other root", DagWorld, ctx.pick(4, 5), dict(kind=kind, n=4, rev=True), 16)
    E = lambda *ps: tuple(("va", p, v) for p, vs in ps for v in vs)
    ctx.bfs("storage", HistWorld, ctx.pick(5, 6), dict(project="chain", answers="yna", start=(("C", "f", (1,), "y"),), calls=(("f", (1,)),), probe=(), inspect=False,
        edits=E(("leaf", (0, 1, 2)), ("G", (0, 1)), ("mid", (0, 1)))))
    ctx.bfs("one component", HistWorld, ctx.pick(4, 6), dict(project="chain", answers="yna", start=(("C", "f", (1,), "y"),), calls=(("f", (1,)),), probe=(), inspect=False, single=("leaf", "f"),
        edits=E(("leaf", (0, 1, 2)), ("f", (0, 1, 2)))))
    ctx.bfs("parts come and go", HistWorld, ctx.pick(5, 6), dict(project="moves", answers="yn", calls=(("f", (1,)),), probe=(), inspect=False,
        edits=E(("f", (0, 1)), ("mid", (1, 2)), ("leaf", (0, 2)), ("G", (0, 2)))))
