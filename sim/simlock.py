"""Locks created by pyirf become locks the simulated scheduler understands.

pyirf at the pinned commit creates none; a changed tree may.  A lock made from a
pyirf frame is a SimLock: outside a simulation it behaves like the real one, inside
it yields to the scheduler instead of blocking the whole process.
"""
import sys
import threading
import _thread

_real_lock = threading.Lock
_real_rlock = threading.RLock

scheduler = None  # set by sched while a simulation runs
observers = set()  # threads that look at a paused simulation


class Blocked(BaseException):
    """An observer needs a lock held by a paused thread."""


def _from_pyirf():
    f = sys._getframe(2)
    for _ in range(6):
        if f is None:
            return False
        name = f.f_globals.get("__name__", "")
        if name == "pyirf" or name.startswith("pyirf."):
            return True
        f = f.f_back
    return False


class SimLock:
    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0
        self._guard = _real_lock()

    def _try(self):
        me = _thread.get_ident()
        with self._guard:
            if self._owner is None or (self.reentrant and self._owner == me):
                self._owner = me
                self._count += 1
                return True
            return False

    def acquire(self, blocking=True, timeout=-1):
        while not self._try():
            if not blocking:
                return False
            if _thread.get_ident() in observers:
                raise Blocked
            s = scheduler
            if s is not None and s.is_sim_thread():
                if timeout is not None and timeout >= 0:
                    # simulated time: waiting threads time out at once
                    return False
                s.wait_for(self)
            else:
                import time

                if timeout is not None and timeout == 0:
                    return False
                time.sleep(0.0005)
        return True

    def release(self):
        with self._guard:
            if self._owner is None:
                raise RuntimeError("release unlocked lock")
            if self.reentrant and self._owner != _thread.get_ident():
                raise RuntimeError("cannot release un-acquired lock")
            self._count -= 1
            if self._count == 0:
                self._owner = None

    def locked(self):
        return self._owner is not None

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def free_for(self, ident):
        return self._owner is None or (self.reentrant and self._owner == ident)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True


def install():
    def Lock():
        return SimLock() if _from_pyirf() else _real_lock()

    def RLock(*a, **k):
        return SimRLock() if _from_pyirf() else _real_rlock(*a, **k)

    threading.Lock = Lock
    threading.RLock = RLock


def replace_astropy_locks():
    """The class-wide locks of astropy's lazy properties, held while a file is read."""
    import gc

    from astropy.utils.decorators import lazyproperty

    for o in gc.get_objects():
        if type(o) is lazyproperty and type(getattr(o, "_lock", None)) is type(_real_rlock()):
            o._lock = SimRLock()
