"""C10: earlier calls never influence later ones."""
import gc
import json
import os
import pickle
import socket
import struct
import subprocess
import sys
import tempfile
import time
import warnings

import numpy as np
import astropy.units as u
from astropy.io import fits
from astropy.table import Table

from .. import env, ops
from .. import snapshot as snap
from ..sched import Sim

ID = "C10"
QUICK = {"runs": 100000, "wall": 90}
THOROUGH = {"runs": 10**7, "wall": 1500}
DROPPABLE = ["steps", "edit_in"]
RULE = ("a run counts as distinct and non-trivial if its history holds at least two calls of which one was repeated, varied, "
        "failed, interrupted or followed by an edit, and the same history was not seen before")
REAL = ["all public pyirf computations", "numpy", "scipy", "astropy", "gammapy"]
STUB = ["history of calls, edits by the caller, interruptions", "environment (hash seed, time zone, locale, working directory) of the reference processes"]
ASSUMPTIONS = ["results which are views of the caller's own input are not edited",
               "inputs of objects that keep them (estimators) are not edited"]
HOW = ["KeyboardInterrupt", "MemoryError", "SystemExit"]
ENVS = [{"PYTHONHASHSEED": "4242", "TZ": "Asia/Kolkata", "LC_ALL": "C", "HOME": "/nonexistent"},
        {"PYTHONHASHSEED": "99", "TZ": "America/St_Johns", "LC_ALL": "POSIX", "LANG": "de_DE.UTF-8"}]
EDITABLE = {"events", "ebins", "abins", "mbins", "irf", "plain", "hist", "cut"}
_sock = None


def plan(r, tier):
    p = ops.pool(r, n=r.choice([1, 2]), small=True)
    theme = ops.draw(r, p, r.choice(["estimator_query", "estimator_query", "spectrum_call"]) if r.random() < 0.15 else None, fail=0.2)
    steps = []
    for _ in range(r.choice([3, 4, 6, 8] + ([12] if tier != "quick" else []))):
        k = r.random()
        if k < 0.3:
            o = theme
        elif k < 0.6:
            o = ops.vary(r, theme)
        elif k < 0.75:
            o = ops.draw(r, p, theme["op"])
        elif k < 0.82:
            o = ops.corrupt(r, theme)
        else:
            o = ops.draw(r, p, fail=0.2)
        s = {"o": o, "at": None, "how": r.choice(HOW), "fresh": r.random() < 0.3, "edit_in": [], "edit_out": r.random() < 0.5,
             "env": r.randrange(len(ENVS)) if r.random() < 0.12 else None}
        if r.random() < 0.12:
            s["at"] = round(r.random(), 4)
        if not s["fresh"] and r.random() < 0.25:
            names = [n for n, a in sorted(o["a"].items()) if _editable(a)]
            if names:
                s["edit_in"] = [r.choice(names)]
        steps.append(s)
    return {"steps": steps}


def _editable(a):
    return isinstance(a, dict) and a.get("k") in EDITABLE and not a.get("ro") or \
        isinstance(a, dict) and a.get("k") == "col" and _editable(a["ev"])


def _target(a):
    return a["ev"] if a["k"] == "col" else a


def subsets(o, world):
    """Keys of the tables of which this operation uses a copied selection."""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "subset":
                out.add(world.key(x["ev"]))
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(o["a"])
    return out


def edit(v, count):
    """The caller changes his own data in place."""
    if isinstance(v, Table):
        names = [n for n in v.colnames if np.asarray(v[n]).dtype.kind == "f"]
        for n in names[count % 2::2]:
            edit(v[n], count)
        return
    if isinstance(v, list):
        v[:] = [x + 1 for x in v]
        return
    a = v.view(np.ndarray)
    if a.dtype.kind == "f":
        a *= 1.25
    elif a.dtype.kind in "iu":
        a += 1


def arrays(x, out, depth=0):
    """All plain arrays inside an object."""
    if depth > 6:
        return out
    if isinstance(x, Table):
        for n in x.colnames:
            arrays(x[n], out, depth + 1)
    elif isinstance(x, np.ndarray):
        out.append(x.view(np.ndarray))
    elif isinstance(x, dict):
        for v in x.values():
            arrays(v, out, depth + 1)
    elif isinstance(x, (list, tuple)):
        for v in x:
            arrays(v, out, depth + 1)
    elif isinstance(x, fits.BinTableHDU):
        out.append(x.data.view(np.ndarray))
    elif type(x).__module__.startswith("gammapy"):
        arrays(x.quantity, out, depth + 1)
    elif type(x).__module__.startswith("pyirf") and hasattr(x, "__dict__"):
        arrays(vars(x), out, depth + 1)
    return out


def spoil(res, args):
    """The caller overwrites what he got back (unless it is his own data)."""
    mine = arrays(list(args.values()), [])
    n = 0
    for a in arrays(res, []):
        if not a.flags.writeable or any(np.may_share_memory(a, b) for b in mine):
            continue
        if a.dtype.names:
            a[...] = np.zeros((), a.dtype)
        elif a.dtype.kind in "fiub":
            a[...] = 7 if a.dtype.kind != "b" else ~a
        n += 1
    if isinstance(res, list):
        res.clear()
    if isinstance(res, dict):
        res.clear()
    if isinstance(res, fits.BinTableHDU):
        res.header["SPOILED"] = True
        res.header["EXTNAME"] = "SPOILED"
        n += 1
    if isinstance(res, Table):
        res.meta["spoiled"] = 1
        if len(res.colnames):
            res.remove_column(res.colnames[0])
        n += 1
    if type(res).__module__.startswith("pyirf") and hasattr(res, "index"):
        res.index = 99.0
        n += 1
    return n


class EditedWorld(ops.World):
    """Builds arguments and applies the edits made to them so far."""

    def __init__(self, scratch, edits):
        super().__init__(scratch)
        self.edits = edits

    def arg(self, a):
        new = a["k"] not in ops.FRESH and self.key(a) not in self.memo
        v = super().arg(a)
        if new:
            k = self.key(a)
            for i, e in enumerate(self.edits):
                if e == k:
                    edit(v, i)
        return v


def reference(o, edits, scratch):
    warnings.simplefilter("ignore")
    return ops.outcome(ops.prepare(o, EditedWorld(scratch, edits)))[0]


def run(plan, ctx):
    warnings.simplefilter("ignore")
    scratch = ctx.scratch
    world = ops.World(scratch)
    copied = set()
    for s in plan["steps"]:
        copied |= subsets(s["o"], world)
    # what every call has to return
    edits, want, cache = [], [], {}
    for s in plan["steps"]:
        s["do"] = []
        for n in s["edit_in"]:
            k = world.key(_target(s["o"]["a"][n]))
            if k not in copied:
                s["do"].append((n, len(edits)))
                edits.append(k)
        now = [] if s["fresh"] else list(edits)
        key = repr((s["o"], now))
        if key not in cache:
            cache[key] = ctx.isolated(lambda: reference(s["o"], now, scratch))
        steps = ops.dry(ctx, s["o"], scratch)[1] if s["at"] is not None else 0
        want.append((cache[key], steps))
        if s["env"] is not None and _sock:
            ctx.fault("other_environment")
            d = snap.diff(remote(s["env"], s["o"], now, scratch), cache[key])
            if d:
                ctx.violate("environment", f"{s['o']['op']} in a process with {ENVS[s['env']]}: {d}")
                return
    ctx.shape([(s["o"]["op"], s["at"], s["fresh"], s["edit_in"], s["edit_out"]) for s in plan["steps"]])
    found = []
    sim = Sim(step_cap=5_000_000)

    def body():
        before = snap.process_state()
        for i, (s, (w, n)) in enumerate(zip(plan["steps"], want)):
            for name, count in s["do"]:
                edit(world.arg(_target(s["o"]["a"][name])), count)
                ctx.fault("caller_edits_input")
            c = ops.prepare(s["o"], ops.World(scratch) if s["fresh"] else world)
            if s["at"] is not None and n:
                sim.interrupt(task, task.steps + 1 + int(s["at"] * n), s["how"])
            fired = len(sim.interrupts_fired)
            out, res = ops.outcome(c, task.interrupts.clear)
            hit = len(sim.interrupts_fired) > fired
            ctx.units += 1
            ctx.note(c.name, hit, None if hit else snap.digest(out))
            ctx.probe(("interrupted:" if hit else "raises:" if out["t"] == "X" else "ok:") + c.name)
            if hit:
                continue
            if out["t"] == "X":
                ctx.fault("call_fails")
            d = snap.diff(out, w)
            if d:
                found.append(("history", f"call {i} {c.name}: {d}"))
                return
            if s["edit_out"] and out["t"] == "V" and spoil(res, c.args):
                ctx.fault("caller_edits_result")
            res = None
        gc.collect()
        for d in snap.state_diff(before, snap.process_state()):
            found.append(("process_state", d))

    task = sim.spawn(body)
    sim.run()
    ctx.add_sim(sim)
    ctx.fault("history_step", len(plan["steps"]))
    if task.exc is not None:
        import traceback

        ctx.violate("no_progress", "".join(traceback.format_exception(task.exc))[-500:])
    for f in found:
        ctx.violate(*f)


def describe(plan):
    return {"steps": [{"op": s["o"]["op"], "interrupt": s["at"], "fresh": s["fresh"], "edit_in": s["edit_in"],
                       "edit_out": s["edit_out"]} for s in plan["steps"]]}


# ------------------------------------------------------------------ other environments
def prepare():
    """One server process per environment; it forks a pristine child for every request."""
    global _sock
    if os.environ.get("VERIF_SERVER"):
        return
    base = tempfile.mkdtemp(prefix="verif-env-", dir="/tmp")
    for i, e in enumerate(ENVS):
        p = subprocess.Popen([env.PYTHON, "-B", os.path.join(env.VERIF, "run.py"), "C10", "--server"],
                             env={**os.environ, **e, "VERIF_SERVER": os.path.join(base, str(i))}, cwd="/" if i else "/usr",
                             stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.set_inheritable(p.stdin.fileno(), False)
        prepare.procs = getattr(prepare, "procs", []) + [p]
    _sock = base
    t0 = time.time()
    while not all(os.path.exists(os.path.join(base, str(i))) for i in range(len(ENVS))):
        if time.time() - t0 > 60 or any(p.poll() is not None for p in prepare.procs):
            raise RuntimeError("environment server did not start")
        time.sleep(0.05)


def remote(i, o, edits, scratch):
    s = socket.socket(socket.AF_UNIX)
    s.settimeout(60)
    try:
        s.connect(os.path.join(_sock, str(i)))
        msg = json.dumps([o, edits, scratch]).encode()
        s.sendall(struct.pack("<Q", len(msg)) + msg)
        data = b""
        while True:
            b = s.recv(1 << 20)
            if not b:
                break
            data += b
    finally:
        s.close()
    kind, val = pickle.loads(data)
    if kind != "ok":
        from ..runner import HarnessError

        raise HarnessError(f"environment server: {kind} {val}")
    return val


def serve():
    import select
    import shutil
    import signal

    from ..runner import in_child

    path = os.environ.pop("VERIF_SERVER")
    s = socket.socket(socket.AF_UNIX)
    s.bind(path + ".new")
    s.listen(64)
    os.rename(path + ".new", path)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        r, _, _ = select.select([s, 0], [], [])
        if 0 in r and not os.read(0, 1):
            # everybody who could ask is gone
            shutil.rmtree(os.path.dirname(path), ignore_errors=True)
            return 0
        if s not in r:
            continue
        c, _ = s.accept()
        if os.fork() == 0:
            try:
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                s.close()
                n = struct.unpack("<Q", _exact(c, 8))[0]
                o, edits, scratch = json.loads(_exact(c, n))
                c.sendall(pickle.dumps(in_child(lambda: reference(o, edits, scratch)), protocol=4))
                c.close()
            finally:
                os._exit(0)
        c.close()


def _exact(c, n):
    b = b""
    while len(b) < n:
        x = c.recv(n - len(b))
        if not x:
            raise EOFError
        b += x
    return b
