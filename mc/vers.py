"""Versioned projects: small modules whose parts have several texts, run on a real
versioned storage and, next to it, by an oracle that executes the same texts with
instrumentation of its own and keeps a dictionary as memo."""
import ast, os, sys, types, shutil, copy, builtins, linecache, contextlib
from .core import Scratch, Violation
from . import world as W
from .world import check, Hooks
W.load()
from mandala.imports import Storage
from mandala.model import Context, Ref
from mandala.deps.tracers import DecTracer
from .store import reset_globals
from . import probe as P

HEAD = "from mandala.imports import op, track\nimport mc.probe as probe\n"
MISSING = "<missing>"


# ------------------------------------------------------------------ projects
class Project:
    """modules: [(module name, header, [(part name, [texts])])]; a text None means the
    part is absent"""
    def __init__(self, *modules):
        self.modules = modules

    def base(self):
        return {(m, p): 0 for m, _, parts in self.modules for p, _ in parts}

    def sources(self, code):
        res = {}
        for m, head, parts in self.modules:
            txt = HEAD + head + "\n"
            for p, texts in parts:
                t = texts[code[m, p]]
                if t is not None:
                    txt += "\n" + t.strip("\n") + "\n"
            res[m] = txt
        return res


class _Reads(ast.NodeTransformer):
    def __init__(self, mod, names):
        self.mod, self.names, self.depth = mod, names, 0

    def _fn(self, node):
        # decorators and defaults are evaluated outside
        self.depth += 1
        outer = self.names
        if isinstance(node.body, list):
            self.names = outer - {n.id for s in node.body for n in ast.walk(s)
                                  if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - {a.arg for a in node.args.args}
        body = [self.visit(s) for s in node.body] if isinstance(node.body, list) else self.visit(node.body)
        self.depth -= 1
        self.names = outer
        node.body = body
        return node

    visit_FunctionDef = visit_Lambda = _fn

    def visit_Name(self, node):
        if self.depth and isinstance(node.ctx, ast.Load) and node.id in self.names:
            return ast.Call(ast.Name("rd__", ast.Load()), [ast.Constant(node.id), node], [])
        return node


class OErr(Exception):
    pass


class H(int):
    """a result together with the call (record, histories of its inputs) that gave it"""
    prod = None


def plain(x):
    return int(x) if isinstance(x, H) else x


class Oracle:
    """executes a project; see Memo for what a memoized call does"""
    def __init__(self, project, code, memo):
        self.memo = memo
        memo.oracle = self
        self.frames, self.mode = [], "run"
        self.log = []
        self.ns = {}
        self.contents = {}
        self.globals = set()
        self.ops = {}
        srcs = project.sources(code)
        saved = {m: sys.modules.get(m) for m in srcs}
        fake = types.SimpleNamespace(hit=lambda *w: self.log.append(w), val=plain, noop=self.noop, Err=OErr)
        try:
            for m, _, parts in project.modules:
                src = srcs[m]
                tree = ast.parse(src)
                lines = src.split("\n")
                names = set()
                for node in tree.body:
                    self._contents(m, "", node, lines)
                    if isinstance(node, ast.Assign):
                        names |= {t.id for t in node.targets}
                    if isinstance(node, ast.ImportFrom) and node.module in srcs:
                        names |= {a.asname or a.name for a in node.names}
                tree.body = [n for n in tree.body if not (isinstance(n, (ast.Import, ast.ImportFrom))
                                                           and (getattr(n, "module", None) or "").startswith("mandala"))
                             and not (isinstance(n, ast.Import) and n.names[0].name == "mc.probe")]
                tree = ast.fix_missing_locations(_Reads(m, names).visit(tree))
                mod = types.ModuleType(m)
                ns = mod.__dict__
                ns.update(op=self._op, track=self._track, probe=fake, rd__=lambda n, v, m=m: self._read(m, n, v))
                sys.modules[m] = mod
                exec(compile(tree, "<oracle>", "exec"), ns)
                self.ns[m] = ns
                for n in names:
                    self.globals.add((m, n))
                    if n in ns and not isinstance(ns[n], type):
                        self.contents[m, n] = gcontent(ns[n])
        finally:
            for m, v in saved.items():
                if v is None:
                    sys.modules.pop(m, None)
                else:
                    sys.modules[m] = v

    def _contents(self, m, prefix, node, lines):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            start = min([node.lineno] + [d.lineno for d in node.decorator_list])
            if isinstance(node, ast.FunctionDef):
                self.contents[m, prefix + node.name] = "\n".join(x.rstrip() for x in lines[start - 1:node.end_lineno])
            else:
                for sub in node.body:
                    self._contents(m, prefix + node.name + ".", sub, lines)

    def _read(self, m, name, v):
        if isinstance(v, (type, types.ModuleType)):
            return v
        if self.frames:
            frames, self.frames = self.frames, []
            frames[-1][m, name] = gcontent(v)
            self.frames = frames
        return v

    def _ran(self, fn):
        k = (fn.__module__, fn.__qualname__)
        if self.frames and k in self.contents:
            self.frames[-1][k] = self.contents[k]

    def _track(self, obj):
        if isinstance(obj, type):
            for k, v in list(obj.__dict__.items()):
                if isinstance(v, (types.FunctionType, type)):
                    setattr(obj, k, self._track(v))
                elif isinstance(v, (staticmethod, classmethod)):
                    setattr(obj, k, type(v)(self._track(v.__func__)))
            return obj
        if isinstance(obj, OracleOp):
            return obj

        def wrapper(*a, **kw):
            self._ran(obj)
            return obj(*a, **kw)
        wrapper.address = f"{obj.__module__}.{obj.__qualname__}"
        return wrapper

    def _op(self, fn):
        return OracleOp(self, fn)

    @contextlib.contextmanager
    def noop(self):
        old, self.mode = self.mode, "noop"
        try:
            yield
        finally:
            self.mode = old


def gcontent(v):
    if hasattr(v, "address"):
        return "function:" + repr(v.address)[1:-1]
    if isinstance(v, types.GeneratorType):      # nothing that could be hashed
        return "generator: object at"
    if type(v).__repr__ is object.__repr__:
        return f"{type(v).__name__}:{vars(v)!r} object at"
    return f"{type(v).__name__}:{v!r}"


class OracleOp:
    def __init__(self, orc, fn):
        self.orc, self.fn = orc, fn
        self.key = (fn.__module__, fn.__qualname__)
        self.address = ".".join(self.key)
        orc.ops[fn.__name__] = self

    def __call__(self, *args):
        if self.orc.mode == "noop":
            self.orc._ran(self.fn)
            return self.fn(*args)
        return self.orc.memo.call(self, args)


class Dag:
    def __init__(self, content):
        self.cls, self.head, self.n = {content: 0}, content, 1
        self.parent = {content: None}

    def sync(self, content, answer):
        if content not in self.cls:
            self.parent[content] = self.head
            if answer == "n":
                self.cls[content] = self.cls[self.head]
            else:
                self.cls[content] = self.n
                self.n += 1
        self.head = content


class Record:
    def __init__(self, op, args, deps, value):
        self.op, self.args, self.deps, self.value = op, args, deps, value
        self.variants = set()       # the histories of the inputs it was called with

    def __repr__(self):
        return f"{self.op}{self.args}={self.value} {sorted(self.deps.items())} {sorted(map(repr, self.variants))}"

    def sem(self, memo):
        """what its semantic version is made of"""
        return self.op, frozenset((k, memo.dags[k].cls[c]) for k, c in self.deps.items())


class Memo:
    """the reference: what is remembered, and under which code"""
    def __init__(self):
        self.dags = {}
        self.records = {}
        self.oracle = None
        self.refused = False

    def clone(self):
        m = Memo()
        m.dags, m.records = copy.deepcopy(self.dags), {k: [copy.deepcopy(r) for r in v] for k, v in self.records.items()}
        return m

    def now(self, key):
        return self.oracle.contents.get(key, MISSING)

    def questions(self):
        return [k for k, d in self.dags.items() if self.now(k) not in d.cls]

    def sync(self, answer):
        if answer == "a" and self.questions():
            return False
        for k, d in self.dags.items():
            d.sync(self.now(k), answer)
        return True

    def same(self, k, a, b):
        d = self.dags.get(k)
        if d is None:
            return a == b
        return a in d.cls and b in d.cls and d.cls[a] == d.cls[b]

    def valid(self, r):
        return all(self.same(k, c, self.now(k)) for k, c in r.deps.items())

    def find(self, op, args):
        for r in self.records.get((op, args), ()):
            if self.valid(r):
                return r

    def call(self, oop, args):
        name = oop.fn.__name__
        orc = self.oracle
        variant = tuple(getattr(a, "prod", None) for a in args)
        args = tuple(plain(a) for a in args)
        r = self.find(name, args)
        if r is None:
            frame = {}
            orc.frames.append(frame)
            try:
                orc._ran(oop.fn)
                old, orc.mode = orc.mode, "run"
                value = plain(oop.fn(*args))
            except BaseException:
                orc.frames.pop()
                if orc.frames:      # whoever made the call has seen it fail
                    orc.frames[-1].update(frame)
                raise
            orc.frames.pop()
            for k, c in frame.items():
                if k not in self.dags:
                    self.dags[k] = Dag(c)
            # a record whose code cannot be told apart from this one's
            for q in self.records.get((name, args), ()):
                if all(self.same(k, q.deps[k], frame[k]) for k in set(q.deps) & set(frame)):
                    self.refused = True
            r = Record(name, args, frame, value)
            self.records.setdefault((name, args), []).append(r)
        if orc.frames:
            orc.frames[-1].update(r.deps)
        r.variants.add(variant)
        if not isinstance(r.value, int):
            return r.value
        res = H(r.value)
        res.prod = (r.sem(self), args, variant)
        return res

    def drop(self, gone, dependents=True):
        """gone: the calls (record, variant) to drop"""
        for r, v in gone:
            r.variants.discard(v)
        gone = {(r.sem(self), r.args, v) for r, v in gone}
        if dependents:
            more = [(r, v) for rs in self.records.values() for r in rs for v in r.variants if any(p in gone for p in v)]
            if more:
                self.drop(more)
        self.records = {k: [r for r in rs if r.variants] for k, rs in self.records.items()}
        self.records = {k: rs for k, rs in self.records.items() if rs}

    def drop_version(self, sem):
        self.drop([(r, v) for rs in self.records.values() for r in rs if r.sem(self) == sem for v in r.variants])

    def canon(self):
        return (sorted((k, sorted(d.cls.items()), d.head) for k, d in self.dags.items()),
                sorted((k, [repr(r) for r in v]) for k, v in self.records.items()))


# --------------------------------------------------------------------- world
class VRun:
    """a real versioned storage on a folder with a project, and its oracle"""
    def __init__(self, project, file=True, dirname=None, **kw):
        reset_globals()
        DecTracer.set_active_trace_obj(None)
        self.project, self.kw = project, kw
        self.dir = dirname or Scratch.new()
        self.proj = os.path.join(self.dir, "proj")
        os.makedirs(self.proj, exist_ok=True)
        self.code = project.base()
        self.m = Memo()
        self.loaded = None
        self.load()
        self.st = self.open()

    def open(self):
        return Storage(db_path=os.path.join(self.dir, "db.sqlite"), deps_path=self.proj, **self.kw)

    def load(self):
        """the modules as a new process would see them"""
        if self.loaded == self.code:
            return
        srcs = self.project.sources(self.code)
        linecache.clearcache()
        self.mods = {}
        for m in srcs:
            sys.modules.pop(m, None)
        for m, _, _ in self.project.modules:
            path = os.path.join(self.proj, m + ".py")
            with open(path, "w") as f:
                f.write(srcs[m])
            mod = types.ModuleType(m)
            mod.__file__ = path
            sys.modules[m] = mod
            exec(compile(srcs[m], path, "exec"), mod.__dict__)
            self.mods[m] = mod
        self.loaded = dict(self.code)
        self.oracle = Oracle(self.project, self.code, self.m)

    def close(self):
        Context.current_context = None
        DecTracer.set_active_trace_obj(None)
        for m, _, _ in self.project.modules:
            sys.modules.pop(m, None)
        try:
            self.st.db._conn.close()
        except Exception:
            pass
        self.st = None
        shutil.rmtree(self.dir, ignore_errors=True)

    def real_op(self, name):
        return getattr(self.mods[self.oracle.ops[name].key[0]], name)

    def fn(self, name):
        """the function or op of this name, in the first module that has it"""
        for m in self.mods.values():
            if hasattr(m, name):
                return getattr(m, name)

    def block(self, calls, answer, fail=False, st=None, memo=None, inspect=False, mid={}):
        """one block with calls; both sides. mid: other things to do in it"""
        st = st or self.st
        m = memo or self.m
        orc = self.oracle
        orc.memo, m.oracle = m, orc
        # ---- oracle
        nq = len(m.questions())
        orc.log.clear()
        orc.frames, orc.mode = [], "run"
        m.refused = False
        exp = []

        def ev(name, args):
            return m.call(orc.ops[name], tuple(ev(*a) if isinstance(a, tuple) else a for a in args))

        def rev(name, args):
            return self.real_op(name)(*[rev(*a) if isinstance(a, tuple) else a for a in args])
        if m.sync(answer):
            for name, args in calls:
                if name in mid:
                    mid[name](None, m, args)
                    continue
                try:
                    exp.append(("v", ev(name, args)))
                except (OErr, NameError):
                    exp.append(("err",))
                if m.refused:
                    break
        else:
            exp = "aborted"
        # ---- real
        asked = []

        def answering(*a):
            asked.append(1)
            if len(asked) > 50:
                raise Violation("asks again and again")
            return answer
        P.LOG.clear()
        builtins_input, builtins.input = builtins.input, answering
        refs = []
        got = []
        refused = None
        try:
            class Stop(Exception):
                pass
            try:
                with st:
                    for name, args in calls:
                        if name in mid:
                            mid[name](st, m, args)
                            continue
                        try:
                            r = rev(name, args)
                            check(isinstance(r, Ref), f"{name}{args} gave {r!r} inside a block")
                            refs.append(r)
                            got.append(("v", st.unwrap(r)))
                        except (P.Err, NameError):
                            refs.append(None)
                            got.append(("err",))
                        except ValueError as e:
                            if m.refused and "distinguishable" in str(e):
                                refused = e
                                break
                            raise
                    if fail:
                        raise Stop()
            except Stop:
                pass
            except ValueError:
                if exp != "aborted":
                    raise
                got = "aborted"
        finally:
            builtins.input = builtins_input
        check(Context.current_context is None, "a context is active after the block", "context left active")
        check(DecTracer.get_active_trace_obj() is None, "tracking goes on after the block", "tracer left active")
        check(not st._mode_stack, "modes left on the stack", "mode left on stack")
        if exp == "aborted":
            check(got == "aborted", f"the synchronization was refused, but the block ran: {got}", "refusal ignored")
            check(len(asked) >= 1, "no question")
            check(not P.LOG, "ran something")
            return
        what = f"{calls} with {self.code}"
        if m.refused:
            return "refused"
        check(len(asked) == nq, lambda: f"{len(asked)} questions instead of {nq}: {what}",
              "too many questions" if len(asked) > nq else "changes not noticed")
        check(got == exp, lambda: f"{what}: got {got} expected {exp}; ran {P.LOG}, expected to run {orc.log}", "wrong result")
        check(P.LOG == orc.log, lambda: f"{what}: ran {P.LOG}, expected to run {orc.log}", 
              "ran again" if len(P.LOG) > len(orc.log) else "did not run")
        if inspect:
            self.inspect(st, m, calls, refs)

    def inspect(self, st, m, calls, refs):
        """the dependencies recorded for the calls"""
        v = st.get_versioner()
        flat = v.get_flat_versions()
        for (name, args), ref in zip(calls, refs):
            if ref is None or any(isinstance(a, tuple) for a in args):
                continue
            r = m.find(name, args)
            c = st.get_ref_creator(ref)
            check(c is not None and c.op.name == name, f"no creator of {name}{args}")
            ver = flat.get(c.content_version)
            check(ver is not None, f"no version {c.content_version} for {name}{args}", "version missing")
            check(ver.semantic_version == c.semantic_version, "semantic version differs")
            sup = set(ver.support)
            exp = set(r.deps)
            check(sup == exp, lambda: f"{name}{args}: dependencies {sorted(sup)} expected {sorted(exp)}",
                  "dependencies missing" if exp - sup else "dependencies too many")
            for k in sup:
                if r.deps[k].endswith(" object at"):
                    continue
                texts = {self.text(v, k, h) for h in ver.content_expansion[k]}
                check(r.deps[k][r.deps[k].index(":"):] in texts if k in self.oracle.globals else r.deps[k] in texts, lambda: f"{name}{args}: {k} was {r.deps[k]!r}, recorded {texts}", "wrong code recorded")

    def text(self, v, k, h):
        c = v.component_dags[k].get_content(h)
        return ":" + c[1] if isinstance(c, tuple) else c

    def probe(self, calls, inspect=True, src=None, memo=None):
        """what a new session would do now (or, on a copy of the database, would have done)"""
        other = Scratch.new()
        try:
            src = src or self.dir
            for f in os.listdir(src):
                if f.startswith("db.sqlite") and not f.endswith("-shm"):
                    shutil.copy(os.path.join(src, f), os.path.join(other, f))
            st = Storage(db_path=os.path.join(other, "db.sqlite"), deps_path=self.proj, **self.kw)
            m = (memo or self.m).clone()
            try:
                self.block(calls, "y", st=st, memo=m, inspect=inspect)
            finally:
                st.db._conn.close() if getattr(st.db, "_conn", None) else None
                self.oracle.memo = self.m
                self.m.oracle = self.oracle
        finally:
            shutil.rmtree(other, ignore_errors=True)


class VWorld:
    """params: project (name), calls, edits [(module, part, text number)], probe (calls made
    in a new session at every state), reopen (a new session for every block), answers"""
    projects = {}

    def __init__(self, params):
        self.p = dict(calls=(), edits=(), probe=None, reopen=False, answers="yn", sync=True, start=(), inspect=True, events=())
        self.p.update(params)
        if self.p["probe"] is None:
            self.p["probe"] = self.p["calls"]
        self.r = VRun(self.projects[self.p["project"]])
        self.last = False
        self.dead = False
        self.edited = True
        for e in self.p["start"]:
            self.apply(e)

    def close(self):
        self.r.close()

    def enabled(self):
        if self.dead:
            return []
        r = self.r
        evs = [("E",) + e for e in self.p["edits"] if r.code[e[0], e[1]] != e[2]]
        r.load()
        r.m.oracle = r.oracle
        answers = self.p["answers"] if r.m.questions() else "y"
        evs += [("C",) + c + (a,) for c in self.p["calls"] for a in answers if a != "a"]
        if self.p["sync"] and r.m.questions():
            evs += [("S", a) for a in answers]
        return evs + list(self.p["events"])

    def apply(self, e):
        r = self.r
        if e[0] == "E":
            r.code[e[1], e[2]] = e[3]
            return
        r.load()
        if self.p["reopen"]:
            r.st = r.open()
        if e[0] == "C":
            *call, ans = e[1:]
            res = r.block([tuple(call)], ans, inspect=self.p["inspect"] and self.last)
        elif e[0] == "S":
            res = r.block([], e[1])
        else:
            res = self.other(e)
        if res == "refused":
            self.dead = True
        elif self.last and self.p["probe"]:
            r.probe(list(self.p["probe"]))

    def canon(self):
        return (self.r.m.canon(), sorted(self.r.code.items()), self.dead)
