"""C09: interrupted or failing calls leave no trace."""
import gc
import os
import tempfile
import warnings

import numpy as np

from .. import ops
from .. import snapshot as snap
from ..sched import Sim

ID = "C09"
QUICK = {"runs": 100000, "wall": 75}
THOROUGH = {"runs": 10**7, "wall": 1500}
DROPPABLE = ["steps"]
RULE = ("a run counts as distinct and non-trivial if at least one interruption or failing user function fired and the "
        "combination of operations, inputs and places was not seen before")
REAL = ["all public pyirf computations", "numpy", "scipy", "astropy", "gammapy"]
STUB = ["place and kind of the interruption", "user-supplied functions"]
ASSUMPTIONS = ["interruptions hit between two source lines of pyirf"]
HOW = ["KeyboardInterrupt", "MemoryError", "SystemExit", "SimCrash"]


def plan(r, tier):
    p = ops.pool(r, n=r.choice([1, 2]), small=True)
    theme = ops.draw(r, p, r.choice(sorted(ops.HAS_FAIL)) if r.random() < 0.25 else None, fail=0.7)
    steps = []
    if r.random() < 0.35:
        # one call, interrupted again and again at different places, each time repeated or followed by a variation
        theme = _cured(theme if r.random() < 0.5 else ops.draw(r, p, r.choice(["estimator_query", "estimator_query", "spectrum_call"])))
        other = _cured(ops.vary(r, theme))
        n = r.choice([5, 8, 12])
        for i in range(n):
            steps.append({"o": theme if r.random() < 0.8 else other, "at": round((i + r.random()) / n, 4), "how": r.choice(HOW)})
            steps.append({"o": theme if r.random() < 0.7 else other, "at": None, "how": None})
        if r.random() < 0.5:
            k = list(range(n))
            r.shuffle(k)
            steps = [s for i in k for s in steps[2 * i:2 * i + 2]]
        return {"steps": steps}
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.random()
        if k < 0.6:
            o = theme
        elif k < 0.8:
            o = ops.vary(r, theme)
        else:
            o = ops.draw(r, p, fail=0.4)
        hit = {"o": o, "at": round(r.random(), 4), "how": r.choice(HOW)}
        if _fails(o) and r.random() < 0.7:
            hit["at"] = None
        elif r.random() < 0.1:
            hit["o"] = ops.corrupt(r, o)
            hit["at"] = None
        steps.append(hit)
        for _ in range(r.choice([1, 1, 2])):
            k = r.random()
            o = _cured(o) if k < 0.5 else _cured(ops.vary(r, o)) if k < 0.75 else ops.draw(r, p, o["op"] if k < 0.85 else None)
            steps.append({"o": o, "at": None, "how": None})
    return {"steps": steps}


def _fails(o):
    return any(isinstance(a, dict) and a.get("fail_at") for a in o["a"].values())


def _cured(o):
    """The same call with a user function that does not fail."""
    return {**o, "a": {k: ({**a, "fail_at": 0} if isinstance(a, dict) and "fail_at" in a else a) for k, a in o["a"].items()}}


def run(plan, ctx):
    warnings.simplefilter("ignore")
    scratch = ctx.scratch
    here = os.path.join(scratch, "cwd")
    tmp = os.path.join(scratch, "tmp")
    os.mkdir(here)
    os.mkdir(tmp)
    os.chdir(here)
    tempfile.tempdir = tmp
    os.environ["TMPDIR"] = tmp
    cache = {}

    def dry(o):
        k = repr(o)
        if k not in cache:
            cache[k] = ops.dry(ctx, o, scratch)
        return cache[k]

    info = [dry(s["o"]) for s in plan["steps"]]
    world = ops.World(scratch)
    calls = [ops.prepare(s["o"], world) for s in plan["steps"]]
    ctx.shape([(c.name, s["at"], s["how"]) for c, s in zip(calls, plan["steps"])])
    found = []
    sim = Sim(step_cap=5_000_000)

    def body():
        before = snap.process_state()
        for i, (s, c, (want, n)) in enumerate(zip(plan["steps"], calls, info)):
            if s["at"] is not None and n:
                sim.interrupt(task, task.steps + 1 + int(s["at"] * n), s["how"])
            fired = len(sim.interrupts_fired)
            out, res = ops.outcome(c, task.interrupts.clear)
            res = None
            gc.collect()
            hit = len(sim.interrupts_fired) > fired
            ctx.units += 1
            ctx.note(c.name, hit, None if hit else snap.digest(out))
            ctx.probe(("interrupted:" if hit else "raises:" if out["t"] == "X" else "ok:") + c.name)
            for cb in c.callbacks:
                if cb.fired:
                    ctx.fault("user_function_" + cb.exc)
            if not hit:
                d = snap.diff(out, want)
                if d:
                    found.append(("later_call_differs", f"call {i} {c.name}: {d}"))
                    return
            for d in snap.state_diff(before, snap.process_state()):
                found.append(("process_state", f"after call {i} {c.name}: {d}"))
                return
            left = os.listdir(here) + os.listdir(tmp)
            if left:
                found.append(("file_left", f"after call {i} {c.name}: {left[:3]}"))
                return

    task = sim.spawn(body)
    sim.run()
    ctx.add_sim(sim)
    if task.exc is not None:
        ctx.violate("no_progress", f"{type(task.exc).__name__}: {task.exc}")
    for f in found:
        ctx.violate(*f)


def describe(plan):
    return {"steps": [{"op": s["o"]["op"], "interrupt": s["at"], "how": s["how"]} for s in plan["steps"]]}
