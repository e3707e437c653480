"""A simulated system clock: every reading advances it, and the plan lets it jump."""
import datetime as _dt
import os
import sys
import time as _time

_real = {k: getattr(_time, k) for k in ("time", "time_ns", "gmtime", "localtime", "strftime", "ctime", "asctime")}
_datetime = _dt.datetime


class Clock:
    def __init__(self, t0, tz="UTC", tick=0.003):
        self.t = float(t0)
        self.tick = tick
        self.readings = 0
        self.jumps = {}
        self.seen = []
        os.environ["TZ"] = tz
        _time.tzset()

    def now(self):
        d = self.jumps.pop(self.readings, None)
        if d is not None:
            self.t += d
        self.readings += 1
        self.t = round(self.t + self.tick, 6)
        self.seen.append(self.t)
        return self.t

    def arm(self, jumps=None):
        self.readings = 0
        self.jumps = dict(jumps or {})
        self.seen = [self.t]


def install(clock):
    class Meta(type(_datetime)):
        def __instancecheck__(cls, x):
            return isinstance(x, _datetime)

        def __subclasscheck__(cls, c):
            return issubclass(c, _datetime)

    class SimDateTime(_datetime, metaclass=Meta):
        @classmethod
        def now(cls, tz=None):
            return _datetime.fromtimestamp(clock.now(), tz)

        @classmethod
        def utcnow(cls):
            return _datetime.fromtimestamp(clock.now(), _dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()

    SimDateTime.__name__ = SimDateTime.__qualname__ = "datetime"
    for m in list(sys.modules.values()):
        name = getattr(m, "__name__", "") or ""
        if name == "datetime" or name.startswith(("pyirf", "astropy.time", "astropy.utils")):
            if getattr(m, "datetime", None) is _datetime:
                m.datetime = SimDateTime

    def either(name):
        orig = _real[name]

        def f(secs=None):
            return orig(clock.now() if secs is None else secs)

        return f

    new = {
        "time": clock.now,
        "time_ns": lambda: int(clock.now() * 1e9),
        "gmtime": either("gmtime"), "localtime": either("localtime"), "ctime": either("ctime"),
        "strftime": lambda fmt, t=None: _real["strftime"](fmt, new["localtime"]() if t is None else t),
        "asctime": lambda t=None: _real["asctime"](new["localtime"]() if t is None else t),
    }
    for k, f in new.items():
        setattr(_time, k, f)
    for m in list(sys.modules.values()):
        name = getattr(m, "__name__", "") or ""
        if name.startswith("pyirf"):
            for k in new:
                if getattr(m, k, None) is _real[k]:
                    setattr(m, k, new[k])


class reading:
    """Context in which every clock function (also the monotonic ones, and those of tqdm) reads ``now()``."""

    NAMES = ("time", "monotonic", "perf_counter", "process_time", "thread_time")

    def __init__(self, now):
        self.now = now

    def __enter__(self):
        new = {}
        for k in self.NAMES:
            new[getattr(_time, k)] = lambda: self.now()
            new[getattr(_time, k + "_ns")] = lambda: int(self.now() * 1e9)
        now = self.now

        class SimDateTime(_datetime):
            @classmethod
            def now(cls, tz=None):
                return _datetime.fromtimestamp(now(), tz)

            @classmethod
            def utcnow(cls):
                return _datetime.fromtimestamp(now(), _dt.timezone.utc).replace(tzinfo=None)

        new[_datetime] = SimDateTime
        self.undo = []
        for m in [_time, _dt, *(m for k, m in sorted(sys.modules.items()) if k.split(".")[0] in ("pyirf", "tqdm"))]:
            for k, v in list(vars(m).items()):
                try:
                    f = new.get(v)
                except TypeError:
                    continue
                if f is not None:
                    self.undo.append((m, k, v))
                    setattr(m, k, f)
        return self

    def __exit__(self, *a):
        for m, k, v in self.undo:
            setattr(m, k, v)
