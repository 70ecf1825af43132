"""Simulated locks and the baton scheduler.

Exactly one simulated thread runs at any time (it holds the baton).  At every yield point - a line of library code,
a store operation, a lock operation - the running thread asks the seeded scheduler who runs next.  Real OS threads
are used as coroutines only: each is parked on its own semaphore and released by whoever hands the baton over, so the
interleaving is decided by the seed alone.
"""
import _thread
import math
import sys

TOOL = 4
CURRENT = None  # the active Scheduler, or None when the process is single-threaded


class SimDeadlock(BaseException):
    pass


class SimAbort(BaseException):
    """Unwinds the remaining simulated threads after a deadlock or an exhausted step budget."""


class SimRLock:
    reentrant = True

    def __init__(self):
        self.owner = None
        self.count = 0

    def _me(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        sched = CURRENT
        me = self._me()
        if sched is not None:
            sched.yield_point("lock")
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if sched is None:
                raise SimDeadlock("lock already held and nobody else is running")
            sched.stats["lock_contended"] = sched.stats.get("lock_contended", 0) + 1
            sched.block_on(self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release of un-acquired lock")
        if self.reentrant and self.owner != self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if CURRENT is not None:
                CURRENT.wake(self)
                CURRENT.yield_point("unlock")

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == self._me()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimLock(SimRLock):
    reentrant = False


class _Task:
    def __init__(self, idx, fn):
        self.idx = idx
        self.fn = fn
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.blocked_on = None
        self.done = False
        self.result = None
        self.exc = None


class Scheduler:
    """policy: {'mode': 'rand', 'p': prob} or {'mode': 'points', 'at': [yield numbers]} (explicit, for replay/shrink)."""

    def __init__(self, rng, policy, budget, trace_prefix=None):
        self.rng = rng
        self.policy = policy
        self.budget = budget
        self.trace_prefix = trace_prefix
        self.tasks = []
        self.cur = None
        self.npoints = 0
        self.switches = []  # (yield number, chosen task)
        self.main_sem = _thread.allocate_lock()
        self.main_sem.acquire()
        self.abort = None
        self.stats = {}
        self.next_at = 0
        self.points_at = None
        if policy["mode"] == "points":
            self.points_at = dict((int(a), int(b)) for a, b in policy["at"])

    # -- called by the running task -------------------------------------------------
    def yield_point(self, tag):
        t = self.cur
        if t is None or _thread.get_ident() != t.ident:
            return
        if self.abort:
            raise SimAbort()
        self.npoints += 1
        if self.npoints < self.next_at:
            return
        if self.npoints > self.budget:
            self.abort = "budget"
            raise SimAbort()
        self._plan()
        if self.points_at is not None:
            nxt = self.points_at.get(self.npoints)
            if nxt is None:
                return
            cand = [u for u in self.tasks if u.idx == nxt and not u.done and u.blocked_on is None]
            if cand and cand[0] is not t:
                self._switch(cand[0])
            return
        cand = [u for u in self.tasks if not u.done and u.blocked_on is None and u is not t]
        if cand:
            self._switch(cand[self.rng.randrange(len(cand))])

    def _plan(self):
        """Draw the next yield point at which the running thread may lose the baton."""
        if self.points_at is not None:
            later = [x for x in self.points_at if x > self.npoints]
            self.next_at = min(later) if later else self.budget
        else:
            p = self.policy["p"]
            u = self.rng.random()
            gap = 1 if p >= 1 else 1 + int(math.log(1.0 - u) / math.log(1.0 - p))
            self.next_at = min(self.npoints + gap, self.budget)
        if self.next_at <= self.npoints:
            self.next_at = self.npoints + 1

    def _switch(self, u):
        t = self.cur
        self.switches.append((self.npoints, u.idx))
        self.cur = u
        u.sem.release()
        t.sem.acquire()
        if self.abort:
            raise SimAbort()

    def block_on(self, lock):
        t = self.cur
        t.blocked_on = lock
        cand = [u for u in self.tasks if not u.done and u.blocked_on is None]
        if not cand:
            self.abort = "deadlock"
            t.blocked_on = None
            raise SimAbort()
        self.npoints += 1
        if self.points_at is not None:
            nxt = self.points_at.get(self.npoints)
            pick = [u for u in cand if u.idx == nxt] or cand
            u = pick[0]
        else:
            u = cand[self.rng.randrange(len(cand))]
        self._switch(u)

    def wake(self, lock):
        for u in self.tasks:
            if u.blocked_on is lock:
                u.blocked_on = None

    # -- running ---------------------------------------------------------------------
    def _start_lines(self):
        m = sys.monitoring
        prefix, ident, off = self.trace_prefix, _thread.get_ident, m.DISABLE

        def cb(code, line):
            if not code.co_filename.startswith(prefix):
                return off
            # the fast path of yield_point
            if self.npoints + 1 < self.next_at and not self.abort:
                t = self.cur
                if t is not None and t.ident == ident():
                    self.npoints += 1
                return None
            self.yield_point("line")

        m.use_tool_id(TOOL, "simsched")
        m.register_callback(TOOL, m.events.LINE, cb)
        m.set_events(TOOL, m.events.LINE)

    def _stop_lines(self):
        m = sys.monitoring
        m.set_events(TOOL, 0)
        m.register_callback(TOOL, m.events.LINE, None)
        m.free_tool_id(TOOL)

    def _body(self, t):
        t.ident = _thread.get_ident()
        t.sem.acquire()
        try:
            if self.abort:
                raise SimAbort()
            t.result = t.fn()
        except BaseException as e:  # recorded, judged by the property
            t.exc = e
        finally:
            t.done = True
            self._finish(t)

    def _finish(self, t):
        live = [u for u in self.tasks if not u.done]
        if not live:
            self.cur = None
            self.main_sem.release()
            return
        cand = [u for u in live if u.blocked_on is None]
        if not cand:
            self.abort = self.abort or "deadlock"
            for u in live:
                u.blocked_on = None
            cand = live
        if self.points_at is not None:
            nxt = self.points_at.get(-1 - t.idx)
            pick = [u for u in cand if u.idx == nxt] or cand
            u = pick[0]
        else:
            u = cand[self.rng.randrange(len(cand))]
        self.switches.append((-1 - t.idx, u.idx))
        self.cur = u
        u.sem.release()

    def run(self, fns):
        global CURRENT
        self.tasks = [_Task(i, f) for i, f in enumerate(fns)]
        for t in self.tasks:
            t.ident = None
            _thread.start_new_thread(self._body, (t,))
        first = self.tasks[0]
        if self.points_at is not None:
            first = self.tasks[self.points_at.get(0, 0)]
        else:
            first = self.tasks[self.rng.randrange(len(self.tasks))]
        self.switches.append((0, first.idx))
        import time as _t

        while any(t.ident is None for t in self.tasks):
            _t.sleep(0.0005)  # only waits for the OS to start the parked threads; no simulated effect
        self._plan()
        if self.trace_prefix:
            self._start_lines()
        CURRENT = self
        self.cur = first
        first.sem.release()
        self.main_sem.acquire()
        CURRENT = None
        if self.trace_prefix:
            self._stop_lines()
        return self.tasks
