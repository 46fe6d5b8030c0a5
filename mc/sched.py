"""A controlled scheduler: sessions run in threads of which exactly one runs at a time;
it changes hands only at the points where a session turns to the database. All schedules
with a bounded number of preemptions are enumerated."""
import threading, sqlite3
from .world import Hooks
from . import world as W
W.load()
from mandala.model import Context


class Abort(BaseException):
    pass


class Sched:
    def __init__(self, bodies, preempt=(), patient=True, points=("begin",)):
        self.bodies = bodies
        self.preempt = dict(preempt)      # number of the point -> session that runs on
        self.patient = patient
        self.points = points
        self.n = len(bodies)
        self.k = 0                        # points passed
        self.log = []                     # (session at the point, sessions that could run, what)
        self.ctx = [None] * self.n
        self.blocked = [False] * self.n   # waiting for the database lock
        self.done = [False] * self.n
        self.errors = [None] * self.n
        self.go = [threading.Semaphore(0) for _ in range(self.n)]
        self.end = threading.Event()
        self.cur = 0
        self.ids = {}
        self.abort = False
        self.progress = 0

    # called by the running session
    def me(self):
        return self.ids.get(threading.get_ident())

    def able(self):
        return [i for i in range(self.n) if not self.done[i] and not self.blocked[i]]

    def hand(self, me, to):
        if to == me:
            return
        self.ctx[me] = Context.current_context
        Context.current_context = self.ctx[to]
        self.cur = to
        self.go[to].release()
        if not self.done[me]:
            self.go[me].acquire()
            if self.abort:
                raise Abort()

    def point(self, what):
        me = self.me()
        if me is None:
            return
        k = self.k
        self.k += 1
        can = self.able()
        self.log.append((me, tuple(can), what))
        to = self.preempt.get(k)
        if to is not None and to in can and to != me:
            self.hand(me, to)

    def on_sql(self, event, sql, conn):
        if event == "execute" and not conn.in_transaction and not sql.startswith("PRAGMA database_list"):
            self.point(" ".join(sql.split()[:3]))
        elif event == "commit" and "commit" in self.points:
            self.point("commit")
        if event == "commit":
            self.progress += 1
            # whoever waits for the lock can try again
            self.unlock = True

    def on_connect(self, path):
        if "connect" in self.points:
            self.point("connect")

    def wait(self):
        """the running session cannot go on; -> False if nobody else can either"""
        me = self.me()
        self.blocked[me] = True
        can = self.able()
        if not can:
            # all wait: let the others try once more
            others = [i for i in range(self.n) if not self.done[i] and i != me]
            if not others or self.stuck > 3 * self.n:
                self.blocked[me] = False
                return False
            self.stuck += 1
            to = others[0] if others[0] > me or len(others) == 1 else min([i for i in others if i > me] or others)
            self.blocked[to] = False
        else:
            self.stuck = 0
            to = min([i for i in can if i > me] or can)
        self.hand(me, to)
        self.blocked[me] = False
        return True

    stuck = 0

    def on_locked(self, e):
        if self.me() is None:
            return False
        code = getattr(e, "sqlite_errorcode", None)
        if code == 517 or not self.patient:      # a stale snapshot: waiting does not help
            return False
        return self.wait()

    def on_sleep(self, t):
        if self.me() is not None:
            self.slept += 1
            if self.slept > 60:
                raise W.Hang("sleeps again and again")
            self.wait()

    slept = 0

    def _run(self, i):
        self.ids[threading.get_ident()] = i
        self.go[i].acquire()
        try:
            if self.abort:
                return
            self.bodies[i]()
        except Abort:
            return
        except BaseException as e:
            import traceback
            e.text = traceback.format_exc(limit=-5)
            self.errors[i] = e
        finally:
            self.done[i] = True
            self.blocked = [False] * self.n
            rest = [] if self.abort else self.able()
            if rest:
                self.hand(i, min([j for j in rest if j > i] or rest))
            else:
                self.end.set()

    def run(self):
        Hooks.on_sql, Hooks.on_connect, Hooks.on_locked, Hooks.on_sleep = self.on_sql, self.on_connect, self.on_locked, self.on_sleep
        Hooks.timeout = 0
        ts = [threading.Thread(target=self._run, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        try:
            self.go[0].release()
            self.end.wait()
        except BaseException:
            self.abort = True
            for g in self.go:
                g.release()
            raise
        finally:
            for t in ts:
                t.join(0.5)
            Hooks.reset()
            Context.current_context = None
        return self


def schedules(make, bound, share=(0, 1), limit=None):
    """make() -> a function from preemptions to a finished Sched (raises on a violation).
    Runs all schedules with at most `bound` preemptions. -> number of executions"""
    n = 0
    root = make(())
    n += 1
    k, of = share
    todo = [()]

    def children(s, pre):
        first = max([p for p, _ in pre], default=-1) + 1
        for p in range(first, len(s.log)):
            me, can, what = s.log[p]
            for t in can:
                if t != me:
                    yield pre + ((p, t),)
    stack = [c for i, c in enumerate(children(root, ())) if i % of == k] if bound else []
    while stack:
        pre = stack.pop()
        s = make(pre)
        n += 1
        if len(pre) < bound:
            stack.extend(children(s, pre))
    return n
