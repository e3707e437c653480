"""Discrete-event simulation of a small batch-processing cluster.

One coordinator hands batches to workers over a lossy network.  The plan fixes the fate
of every message (delay, loss, duplication), the attempts in which a worker is killed
and at which line of pyirf it is executing when that happens, and pauses of workers.
Time is simulated; computing a batch runs the real code.
"""
import heapq
import pickle

from . import sched


class NoProgress(Exception):
    pass


def cluster_plan(r, n_batches, crash_rate=0.5):
    """Seeded fates: finite, so the faults stop and progress is owed afterwards."""
    fates = []
    for _ in range(r.choice([0, 2, 4, 8, 16, 3 * n_batches + 4])):
        k = r.random()
        if k < 0.45:
            fates.append({"k": "ok", "d": round(r.uniform(0.1, 8), 3)})
        elif k < 0.65:
            fates.append({"k": "lost"})
        elif k < 0.85:
            fates.append({"k": "dup", "d": round(r.uniform(0.1, 5), 3), "d2": round(r.uniform(0.1, 30), 3)})
        else:
            fates.append({"k": "ok", "d": round(r.uniform(10, 40), 3)})
    crashes = []
    if r.random() < crash_rate:
        for _ in range(r.randint(1, 3)):
            crashes.append({"attempt": r.randrange(max(1, n_batches + 2)),
                            "step": int(10 ** r.uniform(0, 2.6)),
                            "how": r.choice(["SimCrash", "SimCrash", "SimCrash", "KeyboardInterrupt", "MemoryError"])})
    stalls = [{"attempt": r.randrange(max(1, n_batches + 2)), "t": round(r.uniform(5, 60), 2)}
              for _ in range(r.choice([0, 0, 1, 2]))]
    return {"workers": r.randint(1, 4), "fates": fates, "crashes": crashes, "stalls": stalls,
            "timeout": r.choice([4.0, 10.0, 20.0])}


class Cluster:
    def __init__(self, plan, ctx, compute, payload, equal=None):
        """compute(payload) -> picklable result; payload(batch) -> what goes on the wire."""
        self.p = plan
        self.ctx = ctx
        self.compute = compute
        self.payload = payload
        self.equal = equal
        self.t = 0.0
        self.q = []
        self.seq = 0
        self.fpos = 0
        self.attempt = 0
        self.results = {}
        self.arrival = []
        self.copies = 0
        self.busy = [0.0] * plan["workers"]

    def _at(self, t, what):
        self.seq += 1
        heapq.heappush(self.q, (round(t, 6), self.seq, what))

    def _send(self, msg):
        f = {"k": "ok", "d": 1.0}
        if self.fpos < len(self.p["fates"]):
            f = self.p["fates"][self.fpos]
        self.fpos += 1
        if f["k"] == "lost":
            self.ctx.fault("message_lost")
            self.ctx.shape("lost", msg[0], msg[1])
            return
        if f["d"] != 1.0:
            self.ctx.fault("message_delayed")
        self._at(self.t + f["d"], msg)
        if f["k"] == "dup":
            self.ctx.fault("message_duplicated")
            self._at(self.t + f["d2"], msg)

    def run(self, batches):
        n = len(batches)
        for b in range(n):
            self._assign(b, 0)
        events = 0
        while len(self.results) < n:
            if not self.q:
                raise NoProgress("event queue empty")
            events += 1
            if events > 200 + 60 * (n + len(self.p["fates"]) + len(self.p["crashes"])):
                raise NoProgress(f"{n - len(self.results)} batches unfinished")
            self.t, _, what = heapq.heappop(self.q)
            kind = what[0]
            if kind == "task":
                self._work(what[1], what[2], batches)
            elif kind == "result":
                self._collect(what[1], what[2])
            elif kind == "timer":
                b, tries = what[1], what[2]
                if b not in self.results:
                    self.ctx.fault("retry_after_timeout")
                    self._assign(b, tries + 1)
        self.ctx.sim_time += self.t
        # late duplicates still arrive
        while self.q:
            self.t, _, what = heapq.heappop(self.q)
            if what[0] == "result":
                self._collect(what[1], what[2])
        return self.results

    def _assign(self, b, tries):
        w = (b + tries) % self.p["workers"]
        self._send(("task", b, w))
        self._at(self.t + self.p["timeout"] * min(4, 1 + tries), ("timer", b, tries))

    def _work(self, b, w, batches):
        a = self.attempt
        self.attempt += 1
        start = max(self.t, self.busy[w])
        for s in self.p["stalls"]:
            if s["attempt"] == a:
                self.ctx.fault("worker_stalled")
                start += s["t"]
        self.busy[w] = start + 0.5
        wire = pickle.dumps(self.payload(batches[b]))
        crash = [c for c in self.p["crashes"] if c["attempt"] == a]
        self.ctx.shape("work", b, w, a)
        if crash:
            task, sim = sched.run_single(
                lambda: self.compute(pickle.loads(wire)),
                interrupts=[(c["step"], c["how"]) for c in crash])
            self.ctx.steps += sim.steps
            if sim.interrupts_fired:
                name, where, line = sim.interrupts_fired[0]
                self.ctx.fault("worker_killed" if name == "SimCrash" else "worker_" + name)
                self.ctx.shape("killed", where, line)
            if sim.interrupts_fired and task.exc is not None:
                # the attempt is gone with everything it had computed
                self.busy[w] = start + 3.0
                return
            if task.exc is not None:
                raise task.exc
            result = task.result
        else:
            result = self.compute(pickle.loads(wire))
        t, self.t = self.t, start + 0.5
        self._send(("result", b, pickle.dumps(result)))
        self.t = t

    def _collect(self, b, wire):
        result = pickle.loads(wire)
        if b in self.results:
            self.copies += 1
            self.ctx.probe("duplicate_results")
            if self.equal is not None:
                d = self.equal(self.results[b], result)
                if d:
                    self.ctx.violate("recomputed_batch_differs", f"batch {b}: {d}")
            return
        self.results[b] = result
        self.arrival.append(b)
        self.ctx.shape("arrived", b)


def partition(r, n, max_batches=6):
    """A partition of range(n) into batches, some empty, order arbitrary."""
    idx = list(range(n))
    mode = r.choice(["shuffle", "shuffle", "chunks", "single"])
    if mode == "shuffle":
        r.shuffle(idx)
    k = r.randint(1, max_batches)
    cuts = sorted(r.randint(0, n) for _ in range(k - 1))
    if mode == "single" and n:
        cuts = sorted({0, 1, n - 1, r.randint(0, n)})
    out = []
    last = 0
    for c in cuts + [n]:
        out.append({"rows": idx[last:c]})
        last = c
    return out
