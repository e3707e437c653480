"""C08: no call changes the data it was given."""
import warnings

from .. import ops
from .. import snapshot as snap
from ..sched import Sim, run_single
from .c06 import lockstep
from .c07 import decisions

ID = "C08"
QUICK = {"runs": 100000, "wall": 75}
THOROUGH = {"runs": 10**7, "wall": 1500}
DROPPABLE = ["steps", "with", "decisions"]
RULE = ("a run counts as distinct and non-trivial if at least one failing argument, failing user function, interruption or "
        "thread switch occurred and the combination of operations, inputs and places was not seen before")
REAL = ["all public pyirf computations", "numpy", "scipy", "astropy", "gammapy", "threads"]
STUB = ["place of the interruption", "thread scheduling", "user-supplied functions"]
ASSUMPTIONS = ["interruptions hit between two source lines of pyirf",
               "spectra and simulation infos are compared by their public attributes and values"]
HOW = ["KeyboardInterrupt", "MemoryError", "SystemExit"]


def plan(r, tier):
    p = ops.pool(r, n=r.choice([1, 2]), small=True)
    steps = []
    theme = r.choice([None, r.choice(ops.NAMES)])
    for _ in range(r.choice([2, 3, 4, 6])):
        k = r.random()
        o = ops.draw(r, p, theme if r.random() < 0.5 else None, fail=0.3)
        if k < 0.3:
            o = ops.corrupt(r, o)
        s = {"o": o, "at": None, "how": r.choice(HOW), "with": []}
        if r.random() < 0.45:
            s["at"] = round(r.random(), 4)
        if r.random() < 0.3:
            s["with"] = [ops.draw(r, p, o["op"] if r.random() < 0.5 else None) for _ in range(r.randint(1, 2))]
        s["decisions"] = decisions(r, r.choice([2, 10])) if s["with"] else []
        if s["with"] and r.random() < 0.3:
            s["rest"], s["decisions"] = lockstep(r)
        steps.append(s)
    return {"steps": steps}


def run(plan, ctx):
    warnings.simplefilter("ignore")
    scratch = ctx.scratch
    world = ops.World(scratch)
    frac = []
    for s in plan["steps"]:
        frac.append(ops.dry(ctx, s["o"], scratch)[1] if s["at"] is not None else 0)
    calls = [[ops.prepare(o, world) for o in [s["o"], *s["with"]]] for s in plan["steps"]]
    watched = ops.watch([c for cs in calls for c in cs])
    # option dictionaries and templates the shared estimators were built from
    for k in sorted(world.estimators):
        watched += world.estimators[k][1]
    for s, cs, n in zip(plan["steps"], calls, frac):
        ctx.shape([c.name for c in cs], s["at"], s["how"])
        sim = Sim(s["decisions"], step_cap=3_000_000, rest=s.get("rest"))
        tasks = [sim.spawn(c) for c in cs]
        if s["at"] is not None and n:
            sim.interrupt(tasks[0], 1 + int(s["at"] * n), s["how"])
        sim.run()
        ctx.add_sim(sim)
        for c, t in zip(cs, tasks):
            ctx.units += 1
            if t.exc is not None:
                ctx.probe("raises:" + c.name)
                ctx.note(c.name, type(t.exc).__name__)
                if not sim.interrupts_fired:
                    ctx.fault("call_raises")
            else:
                ctx.probe("ok:" + c.name)
                ctx.note(c.name, snap.digest(snap.canon(t.result)))
        d = ops.changed(watched)
        if d:
            how = sim.interrupts_fired[0][:2] if sim.interrupts_fired else \
                (type(tasks[0].exc).__name__ if tasks[0].exc is not None else "returned")
            ctx.violate("argument_changed", f"after {cs[0].name} ({how}): {d}")
            return


def describe(plan):
    return {"steps": [{"op": s["o"]["op"], "interrupt": s["at"], "with": [o["op"] for o in s["with"]]} for s in plan["steps"]]}
