"""C07: concurrent computations on shared inputs give the single-threaded results."""
import logging
import os
import sys
import warnings

import astropy.units as u
import numpy as np
from astropy.table import QTable

from .. import ops
from .. import snapshot as snap
from ..sched import Sim, observe
from .c06 import lockstep

ID = "C07"
QUICK = {"runs": 100000, "wall": 90}
THOROUGH = {"runs": 10**7, "wall": 1500}
DROPPABLE = ["threads", "ops", "decisions"]
RULE = ("a run counts as distinct and non-trivial if at least one thread switch happened inside pyirf and the combination "
        "of operations, inputs and hand-overs was not seen before")
REAL = ["all public pyirf computations", "numpy", "scipy", "astropy", "gammapy", "threads"]
STUB = ["thread scheduling", "user-supplied functions"]
ASSUMPTIONS = ["steps inside numpy, scipy, astropy and gammapy are atomic for the simulated scheduler"]


def decisions(r, n=None):
    scale = r.choice([2, 4, 10, 30, 100])
    n = n if n is not None else r.choice([2, 5, 20, 60])
    return [[1 + int(r.expovariate(1 / scale)), r.randrange(4)] for _ in range(n)]


def plan(r, tier):
    p = ops.pool(r, n=r.choice([1, 1, 2]), small=True)
    theme = ops.draw(r, p, fail=0.1)
    threads = []
    for _ in range(r.choice([2, 2, 2, 3, 4])):
        todo = []
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.random()
            if k < 0.2:
                todo.append(theme)
            elif k < 0.5:
                todo.append(ops.vary(r, theme))
            elif k < 0.7:
                todo.append(ops.draw(r, p, theme["op"]))
            elif k < 0.76:
                todo.append(ops.corrupt(r, ops.draw(r, p, theme["op"])))
            else:
                todo.append(ops.draw(r, p, fail=0.1))
        threads.append({"ops": todo, "own": r.random() < 0.2})
    if r.random() < 0.4:
        # the threads do the same thing at the same time
        for th in threads:
            k = r.random()
            th["ops"][0] = theme if k < 0.6 else ops.vary(r, theme) if k < 0.8 else ops.draw(r, p, theme["op"])
        rest, start = lockstep(r)
        return {"threads": threads, "gran": r.choice(["line", "line", "line", "instr"]), "rest": rest, "decisions": start}
    return {"threads": threads, "gran": r.choice(["line", "line", "line", "instr"]),
            "decisions": decisions(r) + (decisions(r) if tier != "quick" else [])}


def surroundings():
    """What the whole process shares and is cheap to look at."""
    return (u.get_current_unit_registry(), os.getcwd(), warnings.filters, len(warnings.filters), sys.stdout, sys.stderr,
            len(os.environ), sys.getrecursionlimit(), logging.root.manager.disable)


class Bystander:
    """Another thread of the user's, which calls pyirf whenever somebody has changed what the whole process shares."""

    def __init__(self, scratch, ctx):
        path = os.path.relpath(os.path.join(scratch, "bystander.ecsv"))
        QTable({"energy": [0.1, 1, 10] * u.TeV, "flux": [1e-9, 1e-11, 1e-13] * u.Unit("TeV-1 s-1 cm-2")}).write(
            path, format="ascii.ecsv", overwrite=True)
        self.path = path
        self.ctx = ctx
        self.looks = 0
        self.wrong = None
        self.want = self.calls()
        self.start = self.last = surroundings()

    def calls(self):
        from pyirf import binning, sensitivity, simulations, spectral, utils

        t = QTable({"reco_az": [0.1, 0.2], "reco_alt": [1.1, 1.2]})
        s = spectral.PowerLaw(1e-11 * u.Unit("TeV-1 s-1 cm-2"), -2.5, 1 * u.TeV)
        todo = {
            "PowerLaw of a plain number": lambda: s(3.0),
            "PowerLaw of a wrong unit": lambda: s(3.0 * u.m),
            "PowerLaw": lambda: s([1, 20] * u.GeV),
            "calculate_theta of plain numbers": lambda: utils.calculate_theta(t, 0.1 * u.rad, 1.1 * u.rad),
            "cone_solid_angle of a plain number": lambda: utils.cone_solid_angle(0.1 * u.one),
            "create_bins_per_decade of a length": lambda: binning.create_bins_per_decade(1 * u.m, 10 * u.m, 3),
            "relative_sensitivity": lambda: sensitivity.relative_sensitivity([50.0, np.nan], [10.0, 0.0], 0.2),
            "from_file with a relative path": lambda: spectral.TableInterpolationSpectrum.from_file(self.path)(2 * u.TeV),
            "SimulatedEventsInfo with a plain radius": lambda: simulations.SimulatedEventsInfo(
                10, 1 * u.TeV, 2 * u.TeV, 100.0, -2.0, 0 * u.deg, 1 * u.deg).calculate_n_showers_per_energy([1, 2] * u.TeV),
        }
        return {k: snap.outcome(f) for k, f in todo.items()}

    def __call__(self):
        now = surroundings()
        if all(a is b or a == b for a, b in zip(now, self.last)):
            return
        self.last = now
        if self.looks >= 5 or self.wrong or all(a is b or a == b for a, b in zip(now, self.start)):
            return
        self.looks += 1
        self.ctx.probe("bystander_looked")
        got = observe(self.calls)
        for k, o in (got or {}).items():
            d = snap.diff(o, self.want[k])
            if d:
                self.wrong = f"{k}: {d}"
                return


def run(plan, ctx):
    warnings.simplefilter("ignore")
    every = []
    for th in plan["threads"]:
        for o in th["ops"]:
            if o not in every:
                every.append(o)
    if not every:
        return
    scratch = ctx.scratch
    want = [ctx.isolated(lambda o=o: ops.outcome(ops.prepare(o, ops.World(scratch)))[0]) for o in every]
    for o, w in zip(every, want):
        ctx.probe(("fails:" if w["t"] == "X" else "ok:") + o["op"])
    ctx.shape([[o["op"] for o in th["ops"]] for th in plan["threads"]])

    shared = ops.World(scratch)
    worlds = [ops.World(scratch) if th["own"] else shared for th in plan["threads"]]
    calls = [[ops.prepare(o, w) for o in th["ops"]] for th, w in zip(plan["threads"], worlds)]
    prints = {}
    for cs in calls:
        for c in cs:
            for v in c.args.values():
                if not isinstance(v, ops.Callback):
                    prints.setdefault(id(v), (v, snap.fingerprint(v)))
    state = snap.process_state()
    got = [[] for _ in plan["threads"]]
    err = [None] * len(plan["threads"])

    def body(k):
        before = np.geterr()
        for c in calls[k]:
            out, res = ops.outcome(c)
            got[k].append((out, res))
        if np.geterr() != before:
            err[k] = f"numpy error handling {before} -> {np.geterr()}"

    sim = Sim(plan["decisions"], granularity=plan["gran"], step_cap=3_000_000, rest=plan.get("rest"))
    sim.on_step = by = Bystander(scratch if isinstance(scratch, str) else scratch(), ctx)
    tasks = [sim.spawn(lambda k=k: body(k)) for k in range(len(plan["threads"]))]
    sim.run()
    ctx.add_sim(sim)
    for k, (t, th) in enumerate(zip(tasks, plan["threads"])):
        if t.exc is not None:
            ctx.violate("no_progress", f"thread {k}: {type(t.exc).__name__}: {t.exc}")
            return
        for o, (out, res) in zip(th["ops"], got[k]):
            ctx.units += 1
            ctx.note(o["op"], snap.digest(out))
            d = snap.diff(out, want[every.index(o)])
            if d:
                ctx.violate("concurrent_result", f"thread {k} {o['op']}: {d}")
                return
            if out["t"] == "V":
                d = snap.diff(snap.canon(res), out["v"], rtol=0, atol_scale=0)
                if d:
                    ctx.violate("result_changed_later", f"thread {k} {o['op']}: {d}")
                    return
        if err[k]:
            ctx.violate("process_state", f"thread {k}: {err[k]}")
            return
    if by.wrong:
        ctx.violate("concurrent_result", f"another thread, while the others are inside pyirf: {by.wrong}")
        return
    for v, f in prints.values():
        d = snap.fp_diff(f, snap.fingerprint(v))
        if d:
            ctx.violate("input_changed", f"{type(v).__name__}: {d}")
            return
    got.clear()
    del tasks, res, out
    for d in snap.state_diff(state, snap.process_state()):
        ctx.violate("process_state", d)


def describe(plan):
    return {"threads": [[o["op"] for o in th["ops"]] for th in plan["threads"]], "switches": len(plan["decisions"])}
