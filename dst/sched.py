"""Seeded cooperative scheduler over real threads: exactly one task runs at a time and every hand-over is a decision of the simulator.

Tasks are real threads parked on their own semaphore. A running task reaches a yield point at every line (or bytecode) event of the code under
test (sys.settrace) and at every simulated I/O operation; there the scheduler decides, from its seed or from an explicit list of switches, who
runs next. Locks created by the code under test become cooperative (a task that cannot get one is not runnable)."""
import _thread
import random
import sys
import threading

from .core import DHG, Budget, Violation

_real_lock, _real_rlock = threading.Lock, threading.RLock
_current = None  # the active scheduler


class Deadlock(Violation):
    def __init__(self, d):
        super().__init__("deadlock", d)


class Killed(BaseException):
    """Ends a parked task when the simulation is over."""


class Task:
    def __init__(self, idx, fn, name):
        self.idx, self.fn, self.name = idx, fn, name
        self.sem = threading.Semaphore(0)
        self.done = False
        self.blocked_on = None
        self.result = self.exc = None
        self.data = {}


class Sched:
    """switches: explicit [(step, task)] list, else drawn from `seed` with probability p per yield point; hold: stall the preempted task."""

    def __init__(self, seed=0, p=0.05, switches=None, gran="line", files=(DHG,), max_steps=400_000, budget=None, hold=None, steady=None):
        self.rng = random.Random(seed)
        self.p, self.switches = p, {int(s): int(t) for s, t in switches} if switches is not None else None
        self.gran, self.files, self.max_steps = gran, tuple(files), max_steps
        self.tasks, self.cur, self.step = [], None, 0
        self.trace = []
        self.main = threading.Semaphore(0)
        self.killing = False
        self.budget = budget  # maximal number of preemptions
        if hold is None:  # a third of all runs have long stalls
            hold = random.Random(seed ^ 0x5ca1).choice([0, 0, 0, 0, 200, 2000, 20000])
        self.hold, self.held = hold, 0  # after a preemption, the preempted task stays stalled for up to `hold` steps
        self.steady = steady  # index of a task that is never preempted while it can run
        self._fcache = {}
        self.on_switch = None

    def spawn(self, fn, name=None):
        t = Task(len(self.tasks), fn, name or f"t{len(self.tasks)}")
        self.tasks.append(t)
        return t

    # ---- the tracing seam
    def _want(self, code):
        r = self._fcache.get(code)
        if r is None:
            r = code.co_filename.startswith(self.files)
            self._fcache[code] = r
        return r

    def _global_trace(self, frame, ev, arg):
        if not self._want(frame.f_code):
            return None
        if self.gran == "opcode":
            frame.f_trace_opcodes = True
        return self._local_trace

    def _local_trace(self, frame, ev, arg):
        if ev == self.gran:
            self.yield_point()
        return self._local_trace

    # ---- scheduling
    def runnable(self):
        return [t for t in self.tasks if not t.done and t.blocked_on is None]

    def yield_point(self, force=False):
        t = self.cur
        if t is None or _thread.get_ident() != t.ident:
            return
        if self.killing:
            raise Killed()
        self.step += 1
        if self.step > self.max_steps:
            raise Budget(f"more than {self.max_steps} scheduler steps")
        if self.switches is not None:
            tgt = self.switches.get(self.step)
            if tgt is None or tgt == t.idx or tgt >= len(self.tasks) or self.tasks[tgt].done or self.tasks[tgt].blocked_on is not None:
                return
            nxt = self.tasks[tgt]
        else:
            if not force and (t.idx == self.steady or self.step < self.held or self.rng.random() >= self.p):
                return
            if self.budget is not None and len(self.trace) >= self.budget:
                return
            others = [x for x in self.runnable() if x is not t]
            if not others:
                return
            nxt = self.rng.choice(others)
            if self.hold:
                self.held = self.step + self.rng.randrange(1, self.hold)
        self._switch(t, nxt)

    def _switch(self, t, nxt):
        self.trace.append([self.step, nxt.idx])
        if self.on_switch:
            self.on_switch(t, nxt)
        self.cur = nxt
        nxt.sem.release()
        t.sem.acquire()
        if self.killing:
            raise Killed()

    def block(self, obj):
        """The running task waits for `obj`; somebody else must run."""
        t = self.cur
        t.blocked_on = obj
        rn = self.runnable()
        if not rn:
            t.blocked_on = None
            raise Deadlock(f"{t.name} waits for {obj!r} and no task can run")
        self.step += 1
        nxt = rn[0]
        if self.switches is not None:
            tgt = self.switches.get(self.step)
            if tgt is not None and tgt < len(self.tasks) and self.tasks[tgt] in rn:
                nxt = self.tasks[tgt]
        else:
            nxt = self.rng.choice(rn)
        self._switch(t, nxt)

    def unblock(self, obj):
        for t in self.tasks:
            if t.blocked_on is obj:
                t.blocked_on = None

    def _body(self, t):
        t.sem.acquire()
        t.ident = _thread.get_ident()
        try:
            if self.killing:
                return
            if self.files:
                sys.settrace(self._global_trace)
            t.result = t.fn()
        except Killed:
            pass
        except BaseException as e:
            t.exc = e
        finally:
            sys.settrace(None)
            t.done = True
            t.sched_exit = True
            if not self.killing:
                self._next_after_exit()
            else:
                self.main.release()

    def _next_after_exit(self):
        rn = self.runnable()
        if not rn:
            self.cur = None
            self.main.release()
            return
        self.step += 1
        nxt = rn[0]
        if self.switches is not None:
            tgt = self.switches.get(self.step)
            if tgt is not None and tgt < len(self.tasks) and self.tasks[tgt] in rn:
                nxt = self.tasks[tgt]
        elif self.rng.random() < 0.7:
            nxt = self.rng.choice(rn)
            self.trace.append([self.step, nxt.idx])
        self.cur = nxt
        nxt.sem.release()

    def run(self):
        """Run all tasks to their end; returns them."""
        global _current
        _current = self
        ths = []
        for t in self.tasks:
            th = threading.Thread(target=self._body, args=(t,), name=t.name, daemon=True)
            t.ident = None
            ths.append(th)
            th.start()
        first = self.tasks[0]
        if self.switches is not None:
            tgt = self.switches.get(0)
            if tgt is not None and tgt < len(self.tasks):
                first = self.tasks[tgt]
        else:
            first = self.rng.choice(self.tasks)
            self.trace.append([0, first.idx])
        self.cur = first
        first.sem.release()
        self.main.acquire()
        left = [t for t in self.tasks if not t.done]
        if left:  # everybody left is blocked
            self.killing = True
            for t in left:
                t.sem.release()
                self.main.acquire()
            _current = None
            raise Deadlock("tasks " + ",".join(t.name for t in left) + " wait forever")
        for th in ths:
            th.join()
        _current = None
        return self.tasks


class CoopLock:
    """Lock and re-entrant lock that park the task in the simulator instead of blocking the thread."""

    def __init__(self, reentrant):
        self._re, self._owner, self._n = reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while self._n and not (self._re and self._owner == me):
            if not blocking or _current is None or _current.cur is None or _current.cur.ident != me:
                if not blocking:
                    return False
                raise Deadlock("lock taken twice outside the simulation")
            _current.block(self)
        self._owner, self._n = me, self._n + 1
        return True

    def release(self):
        if not self._n:
            raise RuntimeError("release unlocked lock")
        self._n -= 1
        if not self._n:
            self._owner = None
            if _current is not None:
                _current.unblock(self)

    def locked(self):
        return bool(self._n)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def _from_dhg():
    f = sys._getframe(2)
    while f is not None and f.f_code.co_filename.endswith(("threading.py", "sched.py")):
        f = f.f_back
    return f is not None and f.f_code.co_filename.startswith(DHG)


def install_locks():
    """Locks that the code under test creates are cooperative (called before dhg is imported and kept)."""
    threading.Lock = lambda: CoopLock(False) if _from_dhg() else _real_lock()
    threading.RLock = lambda: CoopLock(True) if _from_dhg() else _real_rlock()


def io_yield():
    """Yield point at a simulated I/O operation."""
    s = _current
    if s is not None and s.cur is not None and s.cur.ident == _thread.get_ident():
        s.yield_point()


def current_task():
    s = _current
    if s is not None and s.cur is not None and s.cur.ident == _thread.get_ident():
        return s.cur
    return None
