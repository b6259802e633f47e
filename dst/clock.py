"""Simulated clock: every reading advances it by a step of the plan, and it may jump either way at chosen readings."""
import datetime as _dt
import sys
import time

_real = {k: getattr(time, k) for k in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns", "localtime", "gmtime", "strftime", "ctime", "sleep")}


class Clock:
    def __init__(self, t0=1.7e9, step=0.01, jumps=()):
        self.t, self.step, self.jumps, self.reads, self.hit = float(t0), step, {int(n): d for n, d in jumps}, 0, 0
        self.mono, self.start = 1000.0, float(t0)

    def tick(self):
        self.reads += 1
        self.t += self.step
        self.mono += self.step
        if self.reads in self.jumps:
            self.t = max(1.0, self.t + self.jumps[self.reads])
            self.hit += 1

    def now(self):
        self.tick()
        return self.t

    def monotonic(self):
        self.tick()
        return self.mono

    def sleep(self, s):
        self.t += s
        self.mono += s

    def span(self):
        return self.mono - 1000.0


def install(c):
    """Put every clock the library, optuna and the standard library read behind `c` (in this process only)."""
    time.time = c.now
    time.time_ns = lambda: int(c.now() * 1e9)
    time.monotonic = time.perf_counter = c.monotonic
    time.monotonic_ns = time.perf_counter_ns = lambda: int(c.monotonic() * 1e9)
    time.localtime = lambda s=None: _real["localtime"](c.now() if s is None else s)
    time.gmtime = lambda s=None: _real["gmtime"](c.now() if s is None else s)
    time.strftime = lambda f, t=None: _real["strftime"](f, time.localtime() if t is None else t)
    time.ctime = lambda s=None: _real["ctime"](c.now() if s is None else s)
    time.sleep = c.sleep

    class meta(type(_dt.datetime)):
        def __instancecheck__(cls, o):
            return isinstance(o, _dt.datetime)

    class SimDatetime(_dt.datetime, metaclass=meta):
        @classmethod
        def now(cls, tz=None):
            return _dt.datetime.fromtimestamp(c.now(), tz)

        @classmethod
        def utcnow(cls):
            return _dt.datetime.fromtimestamp(c.now(), _dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()
    real = _dt.datetime
    mods = [m for n, m in list(sys.modules.items()) if m is not None and (n == "dhg" or n.startswith(("dhg.", "optuna")))]
    fns = {_real[k]: getattr(time, k) for k in _real}
    for m in mods:
        for k, v in list(vars(m).items()):
            try:
                if v is real:
                    setattr(m, k, SimDatetime)
                elif v is _dt:
                    setattr(m, k, _DtModule(SimDatetime))
                elif callable(v) and v in fns:
                    setattr(m, k, fns[v])
            except TypeError:
                pass


class _DtModule:
    """The datetime module with the simulated class in place of datetime.datetime."""

    def __init__(self, cls):
        self.datetime = cls

    def __getattr__(self, k):
        return getattr(_dt, k)
