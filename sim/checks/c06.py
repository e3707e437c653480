"""C06: a shared interpolation estimator answers concurrent queries independently."""
import warnings

import numpy as np

from .. import est, gen
from .. import snapshot as snap
from ..sched import Sim

ID = "C06"
QUICK = {"runs": 100000, "wall": 70}
THOROUGH = {"runs": 10**7, "wall": 1500}
DROPPABLE = ["threads", "queries", "decisions"]
RULE = ("a run counts as distinct and non-trivial if at least one thread switch happened inside pyirf and the combination "
        "of estimator, queries and hand-overs was not seen before")
REAL = ["pyirf.interpolation (estimators, interpolators, extrapolators)", "numpy", "scipy", "threads"]
STUB = ["thread scheduling"]
ASSUMPTIONS = ["steps inside numpy and scipy are atomic for the simulated scheduler",
               "targets on the border of a two-dimensional grid may count as inside or outside"]


def decisions(r, n=None, scale=None):
    """Gaps between switches (in steps) and targets."""
    scale = scale or r.choice([3, 10, 30, 100, 300])
    n = n if n is not None else r.choice([1, 2, 4, 10, 40])
    return [[1 + int(r.expovariate(1 / scale)), r.randrange(4)] for _ in range(n)]


def lockstep(r):
    """Steps between the switches once the decisions are used up, and a head start."""
    q = r.choice([1, 1, 2, 3, 7])
    return q, [[int(10 ** r.uniform(0, 1.8)), r.randrange(4)] for _ in range(r.choice([0, 1, 1, 2]))]


def plan(r, tier):
    s = est.spec(r)
    pts = gen.grid(s["grid"])
    pool = gen.targets(s["grid"], pts, r)
    threads = []
    for _ in range(r.choice([2, 2, 2, 3, 4])):
        threads.append({"queries": [r.choice(pool) for _ in range(r.randint(1, 3))],
                        "own": r.random() < 0.15, "flat": r.random() < 0.3})
    if r.random() < 0.25:
        # the threads ask the same things at the same time
        for th in threads:
            if r.random() < 0.5:
                th["queries"][0] = threads[0]["queries"][0]
        rest, start = lockstep(r)
        return {"est": s, "threads": threads, "gran": r.choice(["line", "line", "line", "instr"]),
                "rest": rest, "decisions": start, "nodes": s["grid"]["dim"] > 1 and r.random() < 0.5}
    return {"nodes": s["grid"]["dim"] > 1 and r.random() < 0.5, "est": s, "threads": threads, "gran": r.choice(["line", "line", "line", "instr"]),
            "decisions": decisions(r, n=r.choice([2, 10, 40]) * (4 if tier != "quick" else 1))}


def ask(estimator, t, flat):
    x = np.array(t, float)
    return estimator(x if flat else x.reshape(1, -1))


def run(plan, ctx):
    warnings.simplefilter("ignore")
    s = plan["est"]
    points, temp = est.templates(s)
    want = {}
    asked = sorted({(tuple(q), th["flat"]) for th in plan["threads"] for q in th["queries"]})
    if not asked:
        return
    if plan.get("nodes"):
        # rounding must not place any of the grid points outside of the grid
        asked = sorted(set(asked) | {(tuple(float(v) for v in np.ravel(x)), False) for x in points})
    ctx.shape(s["kind"], s["interp"], s["extrap"], s["grid"]["dim"], s["grid"]["n"])

    def alone():
        out = []
        for q, flat in asked:
            answer = []
            o = snap.outcome(lambda: answer.append(ask(est.build(s, points, temp), q, flat)) or answer[0])
            bad = est.physical(s, points, temp, q, answer[0]) if answer and est.node(points, q) is not None else None
            out.append((o, bad))
        return out

    wrong = {}
    for key, (o, bad) in zip(asked, ctx.isolated(alone)):
        want[key], wrong[key] = o, bad
    # each answer alone is physical
    for q, flat in asked:
        o = want[(q, flat)]
        ins = est.inside(s, points, q)
        i = est.node(points, q)
        ctx.units += 1
        ctx.probe("node" if i is not None else {True: "inside", False: "outside", None: "border"}[ins])
        if o["t"] == "X":
            if ins is True:
                ctx.violate("query_not_answered", f"{s['kind']} {s['interp']}: {o['n']}: {o['msg']} at {q} inside the grid")
                return
            if ins is False and s["extrap"] is not None:
                ctx.violate("query_not_answered", f"{s['kind']} {s['extrap']}: {o['n']}: {o['msg']} at {q} outside the grid")
                return
            if ins is False and o["n"] != "ValueError":
                ctx.violate("query_not_answered", f"{o['n']} instead of ValueError at {q}: {o['msg']}")
                return
        elif wrong[(q, flat)]:
            bad = wrong[(q, flat)]
            ctx.violate(bad[0], f"{s['kind']} {s['interp']}/{s['extrap']} at the grid point {q}: {bad[1]}")
            return
    state = snap.process_state()
    shared = est.build(s, points, temp)
    sim = Sim(plan["decisions"], granularity=plan["gran"], step_cap=3_000_000, rest=plan.get("rest"))
    got = [[] for _ in plan["threads"]]

    def body(k, th):
        e = est.build(s, points, temp) if th["own"] else shared
        for q in th["queries"]:
            got[k].append(None)
            try:
                r = ask(e, q, th["flat"])
            except Exception as ex:  # noqa
                got[k][-1] = ("X", ex)
            else:
                got[k][-1] = ("V", r, snap.canon(r))

    tasks = [sim.spawn(lambda k=k, th=th: body(k, th)) for k, th in enumerate(plan["threads"])]
    sim.run()
    ctx.add_sim(sim)
    for k, (task, th) in enumerate(zip(tasks, plan["threads"])):
        if task.exc is not None:
            ctx.violate("no_progress", f"thread {k}: {type(task.exc).__name__}: {task.exc}")
            return
        for q, g in zip(th["queries"], got[k]):
            w = want[(tuple(q), th["flat"])]
            if g[0] == "X":
                o = {"t": "X", "n": type(g[1]).__name__, "msg": str(g[1])[:200]}
            else:
                # after everybody finished: answers handed out do not change any more
                o = {"t": "V", "v": snap.canon(g[1])}
                d = snap.diff(o["v"], g[2], rtol=0, atol_scale=0)
                if d:
                    ctx.violate("answer_changed_later", f"thread {k} target {q}: {d}")
                    return
            d = snap.diff(o, w)
            ctx.note(snap.digest(o))
            if d:
                ctx.violate("concurrent_answer", f"{s['kind']} {s['interp']}/{s['extrap']} thread {k} target {q}: {d}")
                return
            if g[0] == "V":
                bad = est.physical(s, points, temp, q, g[1])
                if bad:
                    ctx.violate(bad[0], f"{s['kind']} {s['interp']}/{s['extrap']} target {q}: {bad[1]}")
                    return
    # asked again, alone
    for q, flat in asked:
        d = snap.diff(snap.outcome(lambda: ask(shared, q, flat)), want[(q, flat)])
        if d:
            ctx.violate("concurrent_answer", f"after the threads finished, target {q}: {d}")
            return
    for d in snap.state_diff(state, snap.process_state()):
        ctx.violate("process_state", d)


def describe(plan):
    return {"est": plan["est"], "threads": plan["threads"], "switches": len(plan["decisions"])}
