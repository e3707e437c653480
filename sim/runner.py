"""Seeded search: forks one pristine process per run, aggregates, minimises, reports."""
import gc
import hashlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

from .env import VERIF, PYTHON, REPO

RUN_TIMEOUT = 60.0
OUT = os.path.join(VERIF, "out")
EVIDENCE = os.path.join(VERIF, "evidence")


# ------------------------------------------------------------------ context of a run
class Ctx:
    def __init__(self, plan, scratch_base):
        self.plan = plan
        self.violations = []
        self.faults = {}
        self.probes = {}
        self.hash = hashlib.blake2b(digest_size=12)
        self.sig = hashlib.blake2b(digest_size=8)
        self.sim_time = 0.0
        self.steps = 0
        self.nontrivial = False
        self._scratch = None
        self._scratch_base = scratch_base
        self.units = 0

    def violate(self, cls, detail, **kw):
        if len(self.violations) < 20:
            self.violations.append({"class": cls, "detail": str(detail)[:600], **kw})
        self.note("VIOL", cls)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.sig.update(f"f{kind};".encode())
        if n:
            self.nontrivial = True

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def note(self, *what):
        """An event of the run: part of the digest compared by the determinism test."""
        self.hash.update(repr(what).encode())

    def shape(self, *what):
        """Part of the signature counting distinct schedules."""
        self.sig.update(repr(what).encode())

    def add_sim(self, sim):
        self.steps += sim.steps
        self.shape("sched", sim.signature())
        self.note("sched", sim.signature(), sim.steps)
        if sim.switches:
            self.fault("thread_switch", sim.switches)
        for name, where, line in sim.interrupts_fired:
            self.fault("interrupt_" + name)

    @property
    def scratch(self):
        if self._scratch is None:
            self._scratch = tempfile.mkdtemp(prefix="run", dir=self._scratch_base)
        return self._scratch

    def isolated(self, fn):
        """fn() in a fresh fork of this (still pristine) process."""
        kind, val = in_child(fn, timeout=RUN_TIMEOUT / 2)
        if kind == "ok":
            return val
        if kind == "timeout":
            raise NoEnd("a call made alone in a fresh process did not end")
        raise HarnessError(f"isolated child: {kind} {val}")

    def result(self):
        return {
            "violations": self.violations,
            "faults": self.faults,
            "probes": self.probes,
            "digest": self.hash.hexdigest(),
            "sig": self.sig.hexdigest(),
            "sim_time": self.sim_time,
            "steps": self.steps,
            "nontrivial": self.nontrivial,
            "units": self.units,
        }


class HarnessError(Exception):
    pass


class NoEnd(Exception):
    pass


# ------------------------------------------------------------------ forking
def _read_exact(fd, n, deadline):
    buf = b""
    while len(buf) < n:
        left = deadline - time.monotonic()
        if left <= 0:
            return None
        r, _, _ = select.select([fd], [], [], left)
        if not r:
            return None
        b = os.read(fd, min(1 << 20, n - len(buf)))
        if not b:
            return b""
        buf += b
    return buf


def in_child(fn, timeout=RUN_TIMEOUT, quiet=True):
    """Run fn in a forked child.  ('ok', value) | ('error', text) | ('timeout', None)."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            if quiet:
                dn = os.open(os.devnull, os.O_RDWR)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                os.close(dn)
            try:
                val = ("ok", fn())
            except BaseException:  # noqa
                val = ("error", traceback.format_exc()[-3000:])
            data = pickle.dumps(val, protocol=4)
            msg = struct.pack("<Q", len(data)) + data
            off = 0
            while off < len(msg):
                off += os.write(wfd, msg[off:off + (1 << 16)])
        except BaseException:  # noqa
            code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    deadline = time.monotonic() + timeout
    try:
        head = _read_exact(rfd, 8, deadline)
        if head is None:
            os.kill(pid, signal.SIGKILL)
            return ("timeout", None)
        if len(head) < 8:
            return ("error", "child died")
        data = _read_exact(rfd, struct.unpack("<Q", head)[0], deadline)
        if data is None:
            os.kill(pid, signal.SIGKILL)
            return ("timeout", None)
        return pickle.loads(data)
    finally:
        os.close(rfd)
        os.waitpid(pid, 0)


def execute(check, plan, scratch_base):
    """Execute one plan in a pristine forked process."""

    def body():
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        ctx = Ctx(plan, scratch_base)
        try:
            check.run(plan, ctx)
        except (HarnessError, OSError, MemoryError):
            raise
        except NoEnd as e:
            ctx.violate("no_end", e)
        except Exception as e:
            # an exception the check does not expect from the code under test, or a
            # result it cannot even look at
            tb = traceback.extract_tb(e.__traceback__)
            real = [f for f in tb if f.filename.startswith(REPO + "/")]
            where = real[-1] if real else tb[-1]
            ctx.violate("unexpected_exception" if real else "unusable_result",
                        f"{type(e).__name__}: {str(e)[:200]} at {os.path.basename(where.filename)}"
                        f" in {where.name}")
        return ctx.result()

    kind, val = in_child(body)
    # whatever the run left behind
    for n in os.listdir(scratch_base):
        if n.startswith("run"):
            shutil.rmtree(os.path.join(scratch_base, n), ignore_errors=True)
    if kind == "ok":
        return val
    if kind == "timeout":
        # runs take milliseconds: this one does not end
        return {**Ctx(plan, scratch_base).result(), "violations": [
            {"class": "no_end", "detail": f"the run did not end within {RUN_TIMEOUT:.0f} s"}]}
    return {"harness": kind, "text": val or "run timed out"}


# ------------------------------------------------------------------ plans
def make_plan(check, seed, i, tier):
    r = random.Random(f"{check.ID}:{seed}:{i}")
    plan = check.plan(r, tier)
    plan["check"] = check.ID
    plan["origin"] = {"seed": seed, "run": i}
    # JSON round trip: what is executed is exactly what a replay file holds
    return json.loads(json.dumps(plan))


# ------------------------------------------------------------------ worker pool
def _worker(check, seed, tier, j, jobs, runs, deadline, wfd, base, first=0):
    scratch = tempfile.mkdtemp(prefix=f"w{j}-", dir=base)
    if hasattr(check, "worker_init"):
        check.worker_init(j)
    for i in range(first + j, runs, jobs):
        if time.monotonic() > deadline:
            break
        plan = make_plan(check, seed, i, tier)
        res = execute(check, plan, scratch)
        res["i"] = i
        if i < 40:
            res["sample"] = check.describe(plan) if hasattr(check, "describe") else None
        os.write(wfd, pickle.dumps(res, protocol=4).hex().encode() + b"\n")
        if res.get("violations") or res.get("harness"):
            # the parent decides whether to go on
            pass
    if hasattr(check, "worker_exit"):
        check.worker_exit()
    shutil.rmtree(scratch, ignore_errors=True)


def search(check, seed, tier, runs, wall, jobs, base, stop_on=lambda res: False, first=0):
    """Run the pool; yields results as they come, sorted out by the caller."""
    # cheap garbage collections in the forked processes
    gc.collect()
    gc.freeze()
    start = time.monotonic()
    deadline = start + wall
    pipes = {}
    pids = []
    for j in range(jobs):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                os.setpgid(0, 0)
                os.close(rfd)
                for p in pipes:
                    os.close(p)
                _worker(check, seed, tier, j, jobs, runs, deadline, wfd, base, first)
            except BaseException:  # noqa
                try:
                    os.write(wfd, pickle.dumps(
                        {"harness": "worker", "text": traceback.format_exc()[-3000:], "i": -1}
                    ).hex().encode() + b"\n")
                except BaseException:  # noqa
                    pass
                code = 3
            finally:
                os._exit(code)
        os.close(wfd)
        pipes[rfd] = b""
        pids.append(pid)
    stopped = False
    try:
        while pipes and not stopped:
            r, _, _ = select.select(list(pipes), [], [], 5.0)
            if time.monotonic() > deadline + RUN_TIMEOUT + 30:
                yield {"harness": "pool", "text": "workers did not stop", "i": -1}
                break
            for fd in r:
                b = os.read(fd, 1 << 20)
                if not b:
                    os.close(fd)
                    del pipes[fd]
                    continue
                pipes[fd] += b
                *lines, pipes[fd] = pipes[fd].split(b"\n")
                for ln in lines:
                    res = pickle.loads(bytes.fromhex(ln.decode()))
                    yield res
                    if stop_on(res):
                        stopped = True
    finally:
        for fd in pipes:
            os.close(fd)
        for pid in pids:
            if stopped or pipes:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass


# ------------------------------------------------------------------ minimisation
def _get(plan, path):
    for k in path:
        plan = plan[k]
    return plan


def _with(plan, path, value):
    p = json.loads(json.dumps(plan))
    d = p
    for k in path[:-1]:
        d = d[k]
    d[path[-1]] = value
    return p


def _lists(plan, check):
    """Paths of lists whose elements may be dropped."""
    out = []

    def walk(x, path):
        if isinstance(x, dict):
            for k, v in x.items():
                if isinstance(v, list) and k in check.DROPPABLE:
                    out.append(path + [k])
                walk(v, path + [k])
        elif isinstance(x, list):
            for i, v in enumerate(x):
                if isinstance(v, (dict, list)):
                    walk(v, path + [i])

    walk(plan, [])
    return out


def minimise(check, plan, cls, scratch, wall=45.0):
    """Drop list elements, then simplify numbers, while the same violation class stays."""
    t0 = time.monotonic()
    tries = 0

    def fails(p):
        nonlocal tries
        if time.monotonic() - t0 > wall:
            return False
        tries += 1
        res = execute(check, p, scratch)
        return any(v["class"] == cls for v in res.get("violations", ()))

    changed = True
    while changed and time.monotonic() - t0 < wall:
        changed = False
        for path in _lists(plan, check):
            try:
                cur = _get(plan, path)
            except (KeyError, IndexError):
                continue
            size = max(1, len(cur) // 2)
            while size >= 1 and cur:
                i = 0
                while i < len(cur):
                    cand = cur[:i] + cur[i + size:]
                    p = _with(plan, path, cand)
                    if fails(p):
                        plan, cur, changed = p, cand, True
                    else:
                        i += size
                    if time.monotonic() - t0 > wall:
                        break
                size //= 2
                if time.monotonic() - t0 > wall:
                    break
        # shorten event lists
        for path in _specs_with_n(plan):
            spec = _get(plan, path)
            for n in sorted({0, 1, 2, 3, spec["n"] // 4, spec["n"] // 2}):
                if n < spec["n"]:
                    s = dict(spec, n=n)
                    p = _with(plan, path, s)
                    if fails(p):
                        plan, changed = p, True
                        break
        for p in getattr(check, "simplify", lambda p: ())(plan):
            if fails(p):
                plan, changed = p, True
    return plan, tries


def _specs_with_n(plan):
    out = []

    def walk(x, path):
        if isinstance(x, dict):
            if "eunit" in x and "ptype" in x and isinstance(x.get("n"), int):
                out.append(path)
            for k, v in x.items():
                walk(v, path + [k])
        elif isinstance(x, list):
            for i, v in enumerate(x):
                if isinstance(v, (dict, list)):
                    walk(v, path + [i])

    walk(plan, [])
    return [p for p in out if p]


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        entries = json.load(f)
    return [e for e in entries.get("open", []) if e["property"] == prop]


def is_known(v, known):
    for e in known:
        if e["class"] == v["class"] and e.get("match", "") in v["detail"]:
            return e
    return None


# ------------------------------------------------------------------ main entry points
def jobs_available():
    try:
        return max(1, min(8, len(os.sched_getaffinity(0))))
    except AttributeError:
        return 4


def run_check(check, tier, seed, runs=None, wall=None, jobs=None, evidence=True):
    budget = check.THOROUGH if tier == "thorough" else check.QUICK
    runs = runs or budget["runs"]
    wall = wall or budget["wall"]
    jobs = jobs or jobs_available()
    base = tempfile.mkdtemp(prefix="verif-sim-", dir="/tmp")
    known = known_findings(check.ID)
    t0 = time.monotonic()
    agg = {"n": 0, "sigs": set(), "nontriv": set(), "faults": {}, "probes": {}, "sim": 0.0,
           "steps": 0, "units": 0, "samples": [], "known": {}, "viol": None, "harness": []}

    def fresh(res):
        return [v for v in res.get("violations", ()) if not is_known(v, known)]

    print(f"{check.ID}: seed={seed} tier={tier} runs<={runs} wall<={wall}s jobs={jobs}", flush=True)
    try:
        first, rc, odd = 0, 0, []
        while True:
            left = wall - (time.monotonic() - t0)
            for res in search(check, seed, tier, runs, left, jobs, base,
                              stop_on=lambda r: bool(fresh(r)) or bool(r.get("harness")), first=first):
                if res.get("harness"):
                    agg["harness"].append(res)
                    continue
                agg["n"] += 1
                first = max(first, res["i"] + 1)
                agg["sigs"].add(res["sig"])
                if res["nontrivial"]:
                    agg["nontriv"].add(res["sig"])
                for k, v in res["faults"].items():
                    agg["faults"][k] = agg["faults"].get(k, 0) + v
                for k, v in res["probes"].items():
                    agg["probes"][k] = agg["probes"].get(k, 0) + v
                agg["sim"] += res["sim_time"]
                agg["steps"] += res["steps"]
                agg["units"] += res["units"]
                if res.get("sample") and len(agg["samples"]) < 3:
                    agg["samples"].append({"run": res["i"], "case": res["sample"], "digest": res["digest"]})
                for v in res["violations"]:
                    e = is_known(v, known)
                    if e is not None:
                        agg["known"][e["id"]] = e
                f = fresh(res)
                if f and (agg["viol"] is None or res["i"] < agg["viol"][0]):
                    agg["viol"] = (res["i"], f)
            if agg["viol"] is None:
                break
            rc = report(check, seed, tier, agg, base)
            if rc == 1:
                break
            # seen once, not again: something outside the simulation decides; look for more
            odd.append(agg["viol"])
            rc, agg["viol"] = 0, None
            if len(odd) >= 6 or wall - (time.monotonic() - t0) < 5:
                break
        again = {}
        for i, v in odd:
            again.setdefault(v[0]["class"], []).append(i)
        again = {c: i for c, i in again.items() if len(i) > 1 and c != "no_end"}
        if rc == 0 and again:
            cls, runs_seen = sorted(again.items())[0]
            agg["viol"] = next(o for o in odd if o[0] == runs_seen[0])
            rc = report(check, seed, tier, agg, base, again=runs_seen)
        elif rc == 0 and agg["harness"]:
            for h in agg["harness"]:
                print(f"HARNESS ERROR in run {h['i']}: {h['harness']}\n{h['text']}", flush=True)
            rc = 2
        elif agg["n"] == 0:
            print("HARNESS ERROR: no run finished", flush=True)
            rc = 2
        for e in agg["known"].values():
            print(f"KNOWN-FINDING: property={check.ID} {e['what']}", flush=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    wall_s = time.monotonic() - t0
    if evidence:
        write_evidence(check, tier, seed, agg, wall_s, jobs)
    print(f"{check.ID}: {agg['n']} runs, {len(agg['sigs'])} distinct, {wall_s:.1f} s, "
          f"faults={agg['faults']}", flush=True)
    return rc


def report(check, seed, tier, agg, base, again=None):
    """Reproduce, minimise, write the replay file.  1, or 2 if the violation cannot be seen again.

    ``again``: runs whose violations of this class could not be reproduced one by one,
    but which occur again and again; reported as such.
    """
    i, viols = agg["viol"]
    cls = viols[0]["class"]
    scratch = tempfile.mkdtemp(prefix="min", dir=base)
    if hasattr(check, "worker_init"):
        check.worker_init(0)
    original = plan = make_plan(check, seed, i, tier)
    tries = 0
    for _ in range(1 if cls == "no_end" else 4):
        final = execute(check, plan, scratch)
        vs = [v for v in final.get("violations", ()) if v["class"] == cls]
        if vs:
            break
    if vs and cls != "no_end":
        small, tries = minimise(check, plan, cls, scratch)
        res = execute(check, small, scratch)
        v2 = [v for v in res.get("violations", ()) if v["class"] == cls]
        if v2:
            plan, final, vs = small, res, v2
    if hasattr(check, "worker_exit"):
        check.worker_exit()
    if not vs and again is None:
        print(f"violation of run {i} not seen again: {viols}", flush=True)
        return 2
    if not vs:
        vs = viols
        print(f"  seen in runs {again}, depending on something outside the simulation", flush=True)
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, f"{check.ID}-{seed}-{i}.json")
    doc = {
        "property": check.ID, "class": cls, "violation": vs[0], "plan": plan,
        "digest": final.get("digest"), "verif_seed": seed, "run": i, "tier": tier,
        "minimiser_executions": tries,
    }
    with open(path, "w") as f:
        json.dump(doc, f, indent=1, sort_keys=True)
    print(f"violation class: {cls}\n  {vs[0]['detail']}", flush=True)
    # fresh process, exact reproduction
    p = _replay_fresh(check, path)
    if p.returncode != 1 and plan is not original:
        # the minimised plan lost what makes it happen again
        with open(path, "w") as f:
            json.dump(dict(doc, plan=original, digest=None), f, indent=1, sort_keys=True)
        p = _replay_fresh(check, path)
    print("  replay in a fresh process: " + ("reproduced" if p.returncode == 1 else
          f"NOT reproduced (exit {p.returncode})"), flush=True)
    print(f"VIOLATION property={check.ID} replay={path}", flush=True)
    return 1


def _replay_fresh(check, path):
    return subprocess.run([PYTHON, "-B", os.path.join(VERIF, "run.py"), check.ID, "--replay", path],
                          capture_output=True, text=True, timeout=300)


def replay(check, path):
    with open(path) as f:
        doc = json.load(f)
    base = tempfile.mkdtemp(prefix="verif-sim-", dir="/tmp")
    try:
        if hasattr(check, "worker_init"):
            check.worker_init(0)
        res = execute(check, doc["plan"], base)
        if hasattr(check, "worker_exit"):
            check.worker_exit()
    finally:
        shutil.rmtree(base, ignore_errors=True)
    if res.get("harness"):
        print("HARNESS ERROR", res["harness"], res["text"])
        return 2
    for v in res["violations"]:
        print(f"{v['class']}: {v['detail']}")
    same = [v for v in res["violations"] if v["class"] == doc["class"]]
    exact = res["digest"] == doc.get("digest")
    print(f"replay: {'same violation' if same else 'no such violation'}; "
          f"event log {'identical' if exact else 'differs'}")
    if same:
        print(f"VIOLATION property={check.ID} replay={path}")
        return 1
    return 0


def write_evidence(check, tier, seed, agg, wall_s, jobs):
    os.makedirs(EVIDENCE, exist_ok=True)
    rate = agg["n"] / wall_s * 3600 if wall_s > 0 else 0
    cov = {
        "evaluations": agg["n"],
        "distinct_nontrivial": len(agg["nontriv"]),
        "rule": check.RULE,
        "samples": agg["samples"] or [{"note": "no run finished"}],
        "runs_and_seeds_per_hour": round(rate),
        "simulated_time_s": round(agg["sim"], 3),
        "scheduler_steps": agg["steps"],
        "faults_injected": dict(sorted(agg["faults"].items())),
        "probes": dict(sorted(agg["probes"].items())),
        "distinct_executions": len(agg["sigs"]),
        "distinct_measure": "hash of (operations, thread hand-overs with their step, faults that "
                            "fired, message deliveries) of a run",
        "oracle_evaluations": agg["units"],
        "components_real": check.REAL,
        "components_stub": check.STUB,
        "workers": jobs,
    }
    doc = {
        "property": check.ID, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": cov, "wall_s": round(wall_s, 2),
        "assumptions": getattr(check, "ASSUMPTIONS", []),
        "violations": 0 if agg["viol"] is None else 1,
    }
    with open(os.path.join(EVIDENCE, f"{check.ID}.json"), "w") as f:
        json.dump(doc, f, indent=1, sort_keys=True)
        f.write("\n")
