"""Bounded-exhaustive explorer: runs every item / every history up to a bound on
the real code, in parallel worker processes, against reference models."""
import os, sys, json, time, signal, hashlib, shutil, tempfile, traceback, collections
import multiprocessing as mp

REPO = os.environ.get("MC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("MC_PROCS", "8"))


class Violation(Exception):
    """The property does not hold. `sig` names the failing history / input."""
    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.msg, self.sig = msg, sig or msg


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    # on a busy machine, a task gets more time for the work it could not do
    cpu, wall = (2, 16) if _hung else (TASK_TIMEOUT / 2, 5 * TASK_TIMEOUT)
    if time.process_time() - _armed[0] < cpu and time.monotonic() - _armed[1] < wall:
        signal.setitimer(signal.ITIMER_REAL, 4 if _hung else TASK_TIMEOUT / 4)
        return
    raise Hang("the code under test did not finish in time")


_armed = (0, 0)


def _arm():
    global _armed
    _armed = time.process_time(), time.monotonic()
    signal.setitimer(signal.ITIMER_REAL, 4 if _hung else TASK_TIMEOUT)


def scratch_root():
    for d in ("/dev/shm", tempfile.gettempdir()):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


class Scratch:
    """a directory of its own for each execution, removed afterwards"""
    base = None

    @classmethod
    def new(cls):
        if cls.base is None or cls.base[0] != os.getpid():
            top = os.environ["MC_SCRATCH"]
            cls.base = (os.getpid(), tempfile.mkdtemp(prefix="w", dir=top))
        return tempfile.mkdtemp(prefix="x", dir=cls.base[1])


def digest(obj):
    return hashlib.sha1(repr(obj).encode()).hexdigest()[:20]


TASK_TIMEOUT = 20
_hung = False
_in_task = False


def rearm():
    """a task that consists of many executions gives each the full time"""
    if _in_task:
        _arm()


def guarded(fn, arg):
    """Runs one task; every outcome becomes plain data."""
    signal.signal(signal.SIGALRM, _alarm)
    global _hung, _in_task
    _in_task = True
    _arm()
    try:
        return ("ok", fn(arg))
    except Violation as e:
        return ("viol", (e.msg, e.sig))
    except Hang as e:
        _hung = True
        return ("viol", (str(e), "hang"))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.relpath(f.filename, REPO)}:{f.name}" for f in tb if f.filename.startswith(REPO)]
        if isinstance(e, (MemoryError, OSError)) and not where:   # an error of the environment
            return ("err", traceback.format_exc())
        if not where:   # the harness could not make sense of what the code returned
            where = ["-"]
        return ("viol", (f"unexpected {type(e).__name__}: {e} at {' < '.join(reversed(where[-4:]))}\n"
                         + traceback.format_exc(limit=-6), f"exc:{type(e).__name__}:{where[-1]}"))
    finally:
        _in_task = False
        signal.setitimer(signal.ITIMER_REAL, 0)


def _chunk(job):
    fn, args = job
    return [(arg, guarded(fn, arg)) for arg in args]


def _chunks(fn, items, n):
    buf = []
    for it in items:
        buf.append(it)
        if len(buf) >= n:
            yield fn, buf
            buf = []
    if buf:
        yield fn, buf


def _init_worker():
    from . import world
    world.quiet()
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass


def _worker(conn, others):
    for c in others:
        c.close()
    _init_worker()
    while True:
        try:
            conn.send(_chunk(conn.recv()))
        except (EOFError, OSError):     # no more work is wanted
            os._exit(0)


class Workers:
    """forked processes that are given one job at a time"""
    def __init__(self, n):
        ctx = mp.get_context("fork")
        self.procs, self.conns = [], []
        for _ in range(n):
            mine, its = ctx.Pipe()
            p = ctx.Process(target=_worker, args=(its, self.conns + [mine]), daemon=True)
            p.start()
            its.close()
            self.procs.append(p)
            self.conns.append(mine)

    def map(self, jobs):
        from multiprocessing.connection import wait
        jobs = iter(jobs)
        busy = set()
        idle = list(self.conns)
        while True:
            while idle:
                job = next(jobs, None)
                if job is None:
                    break
                c = idle.pop()
                c.send(job)
                busy.add(c)
            if not busy:
                return
            ready = wait(list(busy), timeout=400)
            if not ready:
                raise RuntimeError("no answer from the worker processes")
            for c in ready:
                try:
                    res = c.recv()
                except (EOFError, ConnectionError):
                    raise RuntimeError("a worker process ended")
                busy.discard(c)
                idle.append(c)
                yield from res

    def stop(self):
        for p in self.procs:
            p.kill()
        for p in self.procs:
            p.join(10)
        for c in self.conns:
            c.close()


class Ctx:
    def __init__(self, prop, tier, seed, known):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.known = [k for k in known if k.get("property") == prop and not k.get("fixed")]
        self.t0 = time.time()
        self.deadline = self.t0 + (270 if tier == "quick" else 840)
        self.states = set()
        self.transitions = 0
        self.execs = 0
        self.parts = []
        self.samples = []
        self.violations = []       # (part, item, msg, sig)
        self.known_seen = {}
        self.capped = False
        self.pool = None
        self.assumptions = []

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # ---------------------------------------------------------------- running
    def close(self, abort=False):
        if self.pool is not None:
            self.pool.stop()
            self.pool = None

    def _violation(self, part, item, msg, sig):
        for k in self.known:
            if sig == k["sig"] or (k["sig"].endswith("*") and sig.startswith(k["sig"][:-1])):
                self.known_seen.setdefault(k["sig"], []).append(item)
                return "known"
        self.violations.append((part, item, msg, sig))
        return "new"

    def enough(self):
        return len(self.violations) >= int(os.environ.get("MC_MAX", "5"))

    def _map(self, fn, items, chunksize):
        if self.pool is None:
            self.pool = Workers(NPROC)
        return self.pool.map(_chunks(fn, items, chunksize))

    def enumerate(self, part, fn, items, chunksize=8, what=""):
        """fn(item) -> dict(outcome=canonical result, steps=n) ; raises Violation."""
        if self.enough():
            return
        n = viol = steps = 0
        outcomes = collections.Counter()
        capped = False
        t0 = time.time()
        for item, (kind, val) in self._map(fn, items, chunksize):
            if kind == "err":
                raise RuntimeError(f"harness error in {part} on {item!r}:\n{val}")
            n += 1
            if kind == "viol":
                viol += 1
                self._violation(part, item, *val)
                if self.enough():
                    self.close(True)
                    break
            else:
                st = val.get("steps", 1)
                steps += st
                o = val.get("outcome")
                if o is not None:
                    outcomes[digest(o)] += 1
                for s in val.get("states", ()):
                    self.states.add((part, s))
                if n in (1, 40) and len(self.samples) < 12:
                    self.samples.append({"part": part, "case": repr(item)[:600], "observed": repr(o)[:300]})
            if time.time() > self.deadline:
                capped = True
                self.capped = True
                self.close(True)
                break
        for o in outcomes:
            self.states.add((part, o))
        self.transitions += steps
        self.execs += n
        self.parts.append({"part": part, "what": what, "executions": n, "steps": steps,
                           "distinct_outcomes": len(outcomes), "violations": viol,
                           "exhaustive": not capped, "wall_s": round(time.time() - t0, 1)})

    def bfs(self, part, world, depth, params=None, chunksize=4, max_states=None, what=""):
        """Breadth-first search over event histories of world(params), a class with
        apply(event), enabled() -> events, canon() -> hashable state, close().
        Histories reaching an already seen state are not extended."""
        if self.enough():
            return
        t0 = time.time()
        job = (world, params)
        res = guarded(_bfs_root, job)
        if res[0] == "err":
            raise RuntimeError(res[1])
        if res[0] == "viol":
            self._violation(part, {"world": world.__name__, "params": params, "history": []}, *res[1])
            return
        key, evs = res[1]
        seen = {key}
        frontier = [((), evs)]
        n = 0
        viol = 0
        done_depth = 0
        capped = False
        last = None
        for d in range(1, depth + 1):
            nxt = []
            tasks = [(world, params, h + (e,)) for h, es in frontier for e in es]
            if not tasks:
                done_depth = depth
                break
            for arg, (kind, val) in self._map(_bfs_step, tasks, chunksize):
                hist = arg[2]
                if kind == "err":
                    raise RuntimeError(f"harness error in {part} on {hist!r}:\n{val}")
                n += 1
                if kind == "viol":
                    viol += 1
                    self._violation(part, {"world": world.__name__, "params": params, "history": list(hist)}, *val)
                    if self.enough():
                        break
                    continue
                nxt.append((repr(hist), hist, val))
                if time.time() > self.deadline:
                    capped = True
                    break
            if capped or self.enough():
                self.capped |= capped
                self.close(True)
                break
            frontier = []
            for _, hist, (key, evs) in sorted(nxt):
                last = (hist, key)
                if key not in seen:
                    seen.add(key)
                    frontier.append((hist, evs))
            done_depth = d
        if last:
            self.samples.append({"part": part, "case": repr(last[0])[:600], "observed": "state " + last[1]})
        for k in seen:
            self.states.add((part, k))
        self.transitions += n
        self.execs += n
        self.parts.append({"part": part, "what": what, "executions": n, "states": len(seen), "transitions": n,
                           "depth_completed": done_depth, "violations": viol,
                           "exhaustive": not capped, "wall_s": round(time.time() - t0, 1)})


def _bfs_root(job):
    world, params = job
    w = world(params)
    try:
        return digest(w.canon()), tuple(w.enabled())
    finally:
        w.close()


def _bfs_step(arg):
    world, params, hist = arg
    w = world(params)
    try:
        for i, e in enumerate(hist):
            w.last = i == len(hist) - 1   # full checks only on the new event
            w.apply(e)
        return digest(w.canon()), tuple(w.enabled())
    finally:
        w.close()
