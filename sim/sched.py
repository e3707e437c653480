"""Deterministic scheduler for real threads, driven by sys.monitoring.

Exactly one simulated thread runs at a time.  Every LINE (or INSTRUCTION) event of a
pyirf code object, and every explicit ``point()`` of the harness, is one step, and the
only place where control can move to another thread, where a thread can be interrupted
or where the step budget is checked.  The plan's list of decisions says after how many
steps control moves to whom, so a plan is one exactly repeatable execution.
"""
import ast
import gc
import hashlib
import sys
import threading
import types
import _thread

from . import simlock
from .env import REPO

TOOL = 4
EV = sys.monitoring.events


class StepLimit(BaseException):
    """No progress within the step budget."""


class Deadlock(BaseException):
    """No simulated thread can run."""


class SimCrash(BaseException):
    """The simulated worker is killed here."""


INTERRUPTS = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "SystemExit": SystemExit,
    "SimCrash": SimCrash,
}


def _walk_code(code, seen):
    if code in seen:
        return
    seen.add(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _walk_code(c, seen)


def pyirf_code_objects(prefix=REPO + "/pyirf/", exclude=("/tests/",)):
    """All code objects of loaded pyirf functions, in a deterministic order."""
    seen = set()
    for f in gc.get_objects():
        if isinstance(f, types.FunctionType):
            fn = f.__code__.co_filename
            if fn.startswith(prefix) and not any(x in fn for x in exclude):
                _walk_code(f.__code__, seen)
    return sorted(seen, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))


_skip_cache = {}


def _skip_lines(filename):
    """Lines at whose start CPython never delivers an interrupt in practice.

    The end of a ``with`` block is attributed to the ``with`` line and is not protected
    by it; ``try:`` and the first instructions of a ``finally`` are likewise places
    without an eval-breaker check between acquiring and guarding.
    """
    if filename in _skip_cache:
        return _skip_cache[filename]
    skip = set()
    try:
        tree = ast.parse(open(filename).read())
    except Exception:
        tree = None
    if tree is not None:
        for node in ast.walk(tree):
            if isinstance(node, (ast.With, ast.AsyncWith)):
                skip.update(range(node.lineno, node.body[0].lineno))
            elif isinstance(node, ast.Try):
                skip.add(node.lineno)
                for s in node.finalbody:
                    skip.update(range(s.lineno, s.end_lineno + 1))
    _skip_cache[filename] = skip
    return skip


def observe(fn):
    """``fn()`` in a thread of its own while the simulation is paused; None if it needs a lock of a paused thread."""
    out = []

    def body():
        simlock.observers.add(_thread.get_ident())
        try:
            out.append(fn())
        except simlock.Blocked:
            pass
        finally:
            simlock.observers.discard(_thread.get_ident())

    th = threading.Thread(target=body, daemon=True)
    th.start()
    th.join()
    return out[0] if out else None


class Task:
    def __init__(self, idx, fn):
        self.idx = idx
        self.fn = fn
        self.sem = threading.Semaphore(0)
        self.steps = 0
        self.done = False
        self.waiting = None
        self.ident = None
        self.result = None
        self.exc = None
        self.interrupts = []


class Sim:
    """One simulated execution of several tasks."""

    def __init__(self, decisions=(), granularity="line", step_cap=400_000, rest=None):
        self.decisions = [tuple(d) for d in decisions]
        # once the decisions are used up: None keeps running, q switches round robin
        # every q steps, so that threads doing the same things advance in lockstep
        self.rest = rest
        self.granularity = granularity
        self.step_cap = step_cap
        self.tasks = []
        self.current = None
        self.steps = 0
        self.budget = None  # steps until the next decision fires
        self.dpos = 0
        self.switches = 0
        self.forced = 0
        self.interrupts_fired = []
        self.hash = hashlib.blake2b(digest_size=8)
        self.main = threading.Semaphore(0)
        self.dead = None
        self.by_ident = {}
        self.locations = set()
        self.on_step = None

    # -- set up -----------------------------------------------------------------
    def spawn(self, fn):
        t = Task(len(self.tasks), fn)
        self.tasks.append(t)
        return t

    def interrupt(self, task, at_step, exc):
        task.interrupts.append([at_step, exc])
        task.interrupts.sort()

    # -- scheduling --------------------------------------------------------------
    def is_sim_thread(self):
        return _thread.get_ident() in self.by_ident

    def _runnable(self):
        out = []
        for t in self.tasks:
            if t.done:
                continue
            if t.waiting is not None and not t.waiting.free_for(t.ident):
                continue
            out.append(t)
        return out

    def _next_decision(self):
        """(gap, target) or None when the schedule is exhausted."""
        if self.dpos < len(self.decisions):
            return self.decisions[self.dpos]
        if self.rest:
            return (self.rest, None)
        return None

    def _arm(self):
        d = self._next_decision()
        self.budget = None if d is None else max(1, int(d[0]))

    def _pick(self, exclude=None):
        cand = [t for t in self._runnable() if t is not exclude]
        if not cand:
            return None
        d = self._next_decision()
        if d is None:
            return cand[0]
        if d[1] is None:
            at = self.current.idx if self.current is not None else -1
            n = len(self.tasks)
            return min(cand, key=lambda t: (t.idx - at - 1) % n)
        self.dpos += 1
        return cand[int(d[1]) % len(cand)]

    def _handover(self, me, nxt):
        self.hash.update(b"%d>%d@%d;" % (me.idx if me else -1, nxt.idx, self.steps))
        self.current = nxt
        self._arm()
        nxt.sem.release()

    def _switch(self, me):
        nxt = self._pick(exclude=me)
        if nxt is None:
            self._arm()
            return
        self.switches += 1
        self._handover(me, nxt)
        me.sem.acquire()

    def step(self, code, where):
        me = self.by_ident.get(_thread.get_ident())
        if me is None or me is not self.current:
            return
        if self.on_step is not None:
            self.on_step()
        self.steps += 1
        me.steps += 1
        if self.steps > self.step_cap:
            self.dead = "steps"
            raise StepLimit(f"no result after {self.step_cap} steps")
        if me.interrupts and me.steps >= me.interrupts[0][0]:
            if code is None or where not in _skip_lines(code.co_filename):
                _, name = me.interrupts.pop(0)
                self.interrupts_fired.append(
                    (name, code.co_qualname if code is not None else "<harness>", where)
                )
                self.hash.update(b"!%d@%d;" % (me.idx, self.steps))
                raise INTERRUPTS[name](f"injected at step {me.steps}")
        if self.budget is not None:
            self.budget -= 1
            if self.budget <= 0:
                if code is not None:
                    self.locations.add((code.co_qualname, where))
                self._switch(me)

    def wait_for(self, lock):
        """The current thread cannot take ``lock``: run somebody else."""
        me = self.by_ident[_thread.get_ident()]
        me.waiting = lock
        nxt = self._pick(exclude=me)
        if nxt is None:
            me.waiting = None
            self.dead = "deadlock"
            raise Deadlock("all simulated threads are blocked")
        self.forced += 1
        self._handover(me, nxt)
        me.sem.acquire()
        me.waiting = None
        if self.dead == "deadlock":
            raise Deadlock("all simulated threads are blocked")

    # -- run ---------------------------------------------------------------------
    def _body(self, t):
        t.ident = _thread.get_ident()
        self.by_ident[t.ident] = t
        t.sem.acquire()
        try:
            t.result = t.fn()
        except BaseException as e:  # noqa
            t.exc = e
        finally:
            t.done = True
            self._finish(t)

    def _finish(self, t):
        self.by_ident.pop(t.ident, None)
        nxt = self._pick()
        if nxt is None:
            left = [x for x in self.tasks if not x.done]
            if left:
                # blocked forever: wake them one by one with a Deadlock
                self.dead = "deadlock"
                self.current = left[0]
                left[0].sem.release()
            else:
                self.main.release()
            return
        self._handover(t, nxt)

    def run(self):
        global _active
        if not self.tasks:
            return self.tasks
        threads = []
        _active = self
        simlock.scheduler = self
        monitor_on(self.granularity)
        try:
            for t in self.tasks:
                th = threading.Thread(target=self._body, args=(t,), daemon=True)
                threads.append(th)
                th.start()
            # everybody registered and parked before anybody runs
            import time

            while any(t.ident is None for t in self.tasks):
                time.sleep(0.0002)
            first = self._pick()
            self._handover(None, first)
            self.main.acquire()
            for th in threads:
                th.join()
        finally:
            monitor_off()
            _active = None
            simlock.scheduler = None
        return self.tasks

    def signature(self):
        return self.hash.hexdigest()


_active = None
_codes = None
_mode = None


def _on_line(code, line):
    s = _active
    if s is not None:
        s.step(code, line)


def _on_instr(code, offset):
    s = _active
    if s is not None:
        s.step(code, offset)


def point(name="harness"):
    """A scheduling point inside harness callbacks (user functions)."""
    s = _active
    if s is not None:
        s.step(None, name)


def monitor_on(granularity="line", codes=None):
    global _codes, _mode
    if codes is None:
        if _codes is None:
            _codes = pyirf_code_objects()
        codes = _codes
    sys.monitoring.use_tool_id(TOOL, "verif-sim")
    if granularity == "instr":
        sys.monitoring.register_callback(TOOL, EV.INSTRUCTION, _on_instr)
        ev = EV.INSTRUCTION
    else:
        sys.monitoring.register_callback(TOOL, EV.LINE, _on_line)
        ev = EV.LINE
    for c in codes:
        sys.monitoring.set_local_events(TOOL, c, ev)
    _mode = (granularity, codes)


def monitor_off():
    global _mode
    if _mode is None:
        return
    for c in _mode[1]:
        sys.monitoring.set_local_events(TOOL, c, 0)
    sys.monitoring.register_callback(TOOL, EV.LINE, None)
    sys.monitoring.register_callback(TOOL, EV.INSTRUCTION, None)
    sys.monitoring.free_tool_id(TOOL)
    _mode = None


def run_single(fn, interrupts=(), step_cap=400_000, granularity="line"):
    """Run one function under the monitor in its own simulated thread.

    Returns (task, sim): task.result or task.exc, and the steps used.
    """
    sim = Sim(granularity=granularity, step_cap=step_cap)
    t = sim.spawn(fn)
    for at, exc in interrupts:
        sim.interrupt(t, at, exc)
    sim.run()
    return t, sim
