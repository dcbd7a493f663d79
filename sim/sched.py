"""
Thread seam: `joblib.Parallel` is replaced, before oups is imported, by a pool
simulated with real threads of which exactly one runs at a time.

A running worker can lose control only at *scheduling points*: each source line
executed in oups and in sortedcontainers (whose containers oups shares between
threads), each function entry in fastparquet, and each file-system event.  At
each point the scheduler's plan (not the machine) decides who goes on.  Code in
numba, numpy, pandas, pyarrow and vaex is atomic in this model.

Plans: ``None`` runs the tasks one after the other, in submission order.
``{"switch": {point number: choice}}`` pre-empts at these points; `choice`
selects the next task among the other runnable ones.  A seeded plan is turned
into that explicit form while running (`SchedState.taken`), for replay and
minimisation.
"""
import os
import random
import sys
import threading

TRACE_DEEP = ("/oups/", "/sortedcontainers/")
TRACE_CALL = ("/fastparquet/",)


class SchedDeadlock(Exception):
    pass


class SchedState:
    def __init__(self):
        self.plan = None  # None | {"switch": {...}} | {"seed":, "p":}
        self.rng = None
        self.points = 0
        self.switches = 0
        self.taken = {}
        self.order = {}  # submission choice at task starts
        self.pool = None
        self.pools = 0
        self.trace = []  # (point, from, to)
        self.max_parallel = 0
        self.tasks = 0


S = SchedState()


def reset(plan=None):
    S.__init__()
    S.plan = plan
    if plan is not None and "seed" in plan:
        S.rng = random.Random(plan["seed"])


def _want_switch():
    """Decide at a scheduling point; returns None or a choice number."""
    p = S.points
    S.points += 1
    plan = S.plan
    if plan is None:
        return None
    if S.rng is not None:
        burst = plan.get("burst")
        prob = plan["p"]
        if burst and (p // burst[0]) % burst[1]:
            prob = plan.get("p_low", 0.0)
        if S.rng.random() < prob:
            c = S.rng.randrange(1 << 16)
            S.taken[str(p)] = c
            return c
        return None
    return plan["switch"].get(str(p))


def _choice0():
    """Which of the runnable tasks starts / continues when one ends."""
    p = S.points
    S.points += 1
    plan = S.plan
    if plan is None:
        return 0
    if S.rng is not None:
        c = S.rng.randrange(1 << 16) if S.rng.random() < plan.get("p_end", 0.7) else 0
        if c:
            S.taken[str(p)] = c
        return c
    return plan["switch"].get(str(p), 0)


class _Task:
    __slots__ = ("i", "fn", "thread", "go", "done", "result", "exc", "started", "waits")

    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.go = threading.Semaphore(0)
        self.done = self.started = False
        self.waits = None  # lock this task waits for
        self.result = self.exc = self.thread = None


class _Pool:
    def __init__(self, n_jobs):
        self.n_jobs = n_jobs
        self.active = []  # started or startable tasks (window of n_jobs)
        self.pending = []
        self.cur = None
        self.main = threading.Semaphore(0)
        self.failed = None
        self.deadlock = None

    def runnable(self, but=None):
        return [a for a in self.active if a is not but and (a.waits is None or a.waits.owner is None)]

    def block(self, t, lock):
        """Task t waits for a lock: somebody else goes on."""
        t.waits = lock
        while lock.owner is not None:
            others = self.runnable(t)
            if not others:
                self.deadlock = SchedDeadlock("every worker waits for a lock")
                self.main.release()
                threading.Event().wait()
            S.switches += 1
            self.resume(others[_choice0() % len(others)])
            t.go.acquire()
            self.cur = t
        t.waits = None

    def run(self, fns):
        tasks = [_Task(i, fn) for i, fn in enumerate(fns)]
        S.tasks += len(tasks)
        S.pools += 1
        S.max_parallel = max(S.max_parallel, min(self.n_jobs, len(tasks)))
        self.pending = tasks[:]
        while self.pending and len(self.active) < self.n_jobs:
            self.active.append(self.pending.pop(0))
        prev, S.pool = S.pool, self
        try:
            if self.active:
                self.resume(self.active[_choice0() % len(self.active)])
                if not self.main.acquire(timeout=300):
                    raise SchedDeadlock("no progress for 300 s of real time")
        finally:
            S.pool = prev
        if self.deadlock is not None:
            # Threads left waiting are daemons.
            raise self.deadlock
        for t in tasks:
            if t.thread is not None:
                t.thread.join(60)
        for t in tasks:
            if t.exc is not None and not isinstance(t.exc, Exception):
                raise t.exc  # a simulated crash
        if self.failed is not None:
            raise self.failed
        return [t.result for t in tasks]

    def resume(self, t):
        self.cur = t
        if not t.started:
            t.started = True
            t.thread = threading.Thread(target=self.body, args=(t,), daemon=True)
            t.thread.start()
        else:
            t.go.release()

    def body(self, t):
        sys.settrace(self.tracer)
        try:
            t.result = t.fn()
        except BaseException as e:  # noqa: B036
            t.exc = e
        finally:
            sys.settrace(None)
        t.done = True
        self.active.remove(t)
        if t.exc is not None:
            # joblib stops handing out tasks after a failure, lets the ones
            # already started come to an end, and raises the first exception.
            if self.failed is None:
                self.failed = t.exc
            self.pending.clear()
            self.active = [a for a in self.active if a.started]
        elif self.pending:
            self.active.append(self.pending.pop(0))
        ready = self.runnable()
        if ready:
            self.resume(ready[_choice0() % len(ready)])
        else:
            if self.active:
                self.deadlock = SchedDeadlock("every worker waits for a lock")
            self.main.release()

    def tracer(self, frame, event, arg):
        fn = frame.f_code.co_filename
        for s in TRACE_DEEP:
            if s in fn:
                return self.local
        for s in TRACE_CALL:
            if s in fn:
                self.point()
                return None
        return None

    def local(self, frame, event, arg):
        if event == "line":
            self.point()
        return self.local

    def point(self):
        t = self.cur
        if t is None or threading.current_thread() is not t.thread:
            return
        c = _want_switch()
        if c is None:
            return
        others = self.runnable(t)
        if not others:
            return
        nxt = others[c % len(others)]
        S.switches += 1
        if len(S.trace) < 100000:
            S.trace.append((S.points, t.i, nxt.i))
        self.resume(nxt)
        t.go.acquire()
        self.cur = t


def io_point(kind, path):
    """File-system event of a worker."""
    pool = S.pool
    if pool is None or S.plan is None:
        return
    # Not while in vaex, which holds locks of its own.
    f = sys._getframe(2)
    while f is not None:
        if "/vaex/" in f.f_code.co_filename:
            return
        f = f.f_back
    pool.point()


class SimLock:
    """Lock used in oups: a worker that waits for it hands over to another one."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self.reentrant and self.owner == me:
            self.count += 1
            return True
        pool = S.pool
        t = None if pool is None else pool.cur
        if t is not None and threading.current_thread() is t.thread:
            if blocking and timeout < 0:
                pool.point()
                pool.block(t, self)
            elif self.owner is not None:
                pool.point()
        if self.owner is not None:
            if not blocking or timeout >= 0:
                return False
            raise SchedDeadlock("lock acquired twice by the same thread, or never released")
        self.owner, self.count = me, 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()


def _lock_factory(real, reentrant):
    def make():
        name = sys._getframe(1).f_globals.get("__name__", "")
        return SimLock(reentrant) if name == "oups" or name.startswith("oups.") else real()

    return make


class SimParallel:
    """Stand-in for `joblib.Parallel` with threads."""

    def __init__(self, n_jobs=None, *args, **kwargs):
        n = 1 if n_jobs is None else n_jobs
        if n < 0:
            n = max(8 + 1 + n, 1)
        self.n_jobs = max(int(n), 1)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, iterable):
        fns = []
        for func, args, kwargs in iterable:
            fns.append(lambda func=func, args=args, kwargs=kwargs: func(*args, **kwargs))
        if self.n_jobs == 1 or S.plan is None:
            S.tasks += len(fns)
            S.pools += 1
            return [fn() for fn in fns]
        return _Pool(self.n_jobs).run(fns)


def install():
    import joblib

    threading.Lock = _lock_factory(threading.Lock, False)
    threading.RLock = _lock_factory(threading.RLock, True)
    joblib.Parallel = SimParallel
    joblib.parallel.Parallel = SimParallel
