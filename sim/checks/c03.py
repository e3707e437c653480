"""C03: IRF and performance tables do not depend on event arrival order."""
import math

import numpy as np
import astropy.units as u

from .. import gen, ref
from .. import snapshot as snap
from ..cluster import Cluster, NoProgress, cluster_plan, partition
from ..sched import run_single

ID = "C03"
QUICK = {"runs": 100000, "wall": 60}
THOROUGH = {"runs": 10**7, "wall": 1500}
DROPPABLE = ["batches", "fates", "crashes", "stalls", "ops", "rows", "kills"]
RULE = ("a run counts as distinct and non-trivial if at least one message or worker fault fired and the "
        "sequence of deliveries, retries, kills (with the killed line) and operations was not seen before")
REAL = ["pyirf.irf.psf", "pyirf.irf.energy_dispersion", "pyirf.cuts.calculate_percentile_cut", "pyirf.benchmarks",
        "numpy/astropy", "pickle transport of the tables"]
STUB = ["network", "clock", "worker processes (killed by an exception raised at a chosen pyirf line)"]
ASSUMPTIONS = ["quantiles are compared with a relative tolerance of 1e-8 (1e-5 for float32)",
               "smoothed cuts are only required to be independent of arrival order and retries"]

OPS = ["psf", "edisp", "migra", "percentile", "angres", "ebias"]
SIGMA = [0.15865525393145707, 0.5, 0.8413447460685429]
ONE_SIGMA = 0.6826894921370859


def plan_op(r, name):
    op = {"op": name, "ebins": gen.energy_bins_spec(r, overflow=name in ("percentile", "angres", "ebias"))}
    if name in ("psf", "edisp", "migra"):
        op["fov"] = gen.angle_bins_spec(r, lo=r.choice([0.0, 0.0, 0.5]), hi=r.choice([3.0, 6.0]))
    if name == "psf":
        op["src"] = gen.angle_bins_spec(r, lo=r.choice([0.0, 0.0, 0.0, 0.05, 0.2]), hi=r.choice([0.3, 1.0, 4.0]), max_bins=6)
    if name == "edisp":
        op["mig"] = gen.migra_bins_spec(r, r.randint(2, 8), 0.6)
    if name == "migra":
        op["rbins"] = gen.energy_bins_spec(r)
    if name == "percentile":
        op["values"] = r.choice(["theta", "theta", "gh_score"])
        op["by"] = r.choice(["reco_energy", "true_energy"])
        op["pct"] = r.choice([68.0, 68.0, 0.0, 100.0, 33.3, [20.0, 50.0, 90.0], [68.0]])
        op["fill"] = r.choice([0.3, 1.0, 0.0])
        op["min"] = r.choice([None, None, 0.05, 0.1])
        op["max"] = r.choice([None, None, 0.2, 0.3])
        op["unit"] = r.choice(["deg", "deg", "rad", "arcmin"])
        op["smoothing"] = r.choice([None, None, None, 1.0, 0.5, 2.5])
        op["min_events"] = r.choice([1, 1, 2, 3, 5, 10])
        op["default_min"] = r.random() < 0.15
    if name in ("angres", "ebias"):
        op["etype"] = r.choice(["true", "reco"])
        op["default"] = op["etype"] == "true" and r.random() < 0.5
    if name == "angres":
        op["q"] = r.choice([None, None, 0.5, [0.25, 0.5, 0.9], [0.0, 1.0], [0.8, 0.1]])
    if name == "ebias":
        op["f"] = r.choice(["default", "default", "abs68", "mean"])
    return op


def plan(r, tier):
    ev = gen.events_spec(r, max_n=80 if tier == "quick" else r.choice([80, 400]))
    ops = [plan_op(r, r.choice(OPS)) for _ in range(r.randint(1, 3))]
    if r.random() < 0.08:
        ev["n"] = gen.large_n(r)
    batches = partition(r, ev["n"])
    kills = [{"op": r.randrange(3), "step": int(10 ** r.uniform(0, 2.3)),
              "how": r.choice(["SimCrash", "KeyboardInterrupt", "MemoryError"])} for _ in range(r.choice([0, 1, 1, 2, 3]))]
    return {"events": ev, "ops": ops, "batches": batches, "cluster": cluster_plan(r, len(batches), crash_rate=0),
            "kills": kills}


def mean_bias(x):
    return np.nanmean(x)


def values_unit(op):
    return op["unit"] if op["values"] == "theta" else None


def compute(op, ev):
    from pyirf.benchmarks import (angular_resolution, energy_bias_resolution,
                                  energy_bias_resolution_from_energy_dispersion)
    from pyirf.benchmarks.energy_bias_resolution import energy_resolution_absolute_68
    from pyirf.cuts import calculate_percentile_cut
    from pyirf.irf import energy_dispersion, psf_table
    from pyirf.irf.energy_dispersion import energy_migration_matrix

    k = op["op"]
    eb = gen.energy_bins(op["ebins"])
    if k == "psf":
        return {"v": np.array(psf_table(ev, eb, gen.angle_bins(op["src"]), gen.angle_bins(op["fov"])).to_value("sr-1"))}
    if k == "edisp":
        m = gen.migra_bins(op["mig"])
        v = energy_dispersion(ev, eb, gen.angle_bins(op["fov"]), m)
        b, res = energy_bias_resolution_from_energy_dispersion(v, m)
        # "@": only required to be the same for every order
        return {"v": np.array(v), "@bias": np.array(b), "@resolution": np.array(res)}
    if k == "migra":
        return {"v": np.array(energy_migration_matrix(ev, eb, gen.energy_bins(op["rbins"]), gen.angle_bins(op["fov"])))}
    if k == "percentile":
        un = values_unit(op)
        q = (lambda x: None if x is None else u.Quantity(x, u.deg).to(un)) if un else (lambda x: x)
        v = ev[op["values"]]
        v = v if un else np.asarray(v)
        p = op["pct"]
        kw = {} if op["default_min"] else {"min_events": op["min_events"]}
        t = calculate_percentile_cut(v, ev[op["by"]], eb, q(op["fill"]), percentile=p, min_value=q(op["min"]),
                                     max_value=q(op["max"]), smoothing=op["smoothing"], **kw)
        c = t["cut"]
        return {"v": np.array(c.to_value(u.deg) if un else c, dtype=float), "n_events": np.array(t["n_events"], float),
                "low": np.array(t["low"].to_value(u.TeV)), "high": np.array(t["high"].to_value(u.TeV)),
                "center": np.array(t["center"].to_value(u.TeV))}
    et = op["etype"]
    kw = {} if op["default"] else {"energy_type": et}
    if k == "angres":
        if op["q"] is not None:
            kw["quantile"] = op["q"]
        t = angular_resolution(ev, eb, **kw)
        out = {c: np.array(t[c].to_value(u.deg)) for c in t.colnames if c.startswith("angular_resolution")}
    else:
        if op["f"] == "abs68":
            kw["resolution_function"] = energy_resolution_absolute_68
        if op["f"] == "mean":
            kw["bias_function"] = mean_bias
        t = energy_bias_resolution(ev, eb, **kw)
        out = {c: np.array(t[c], float) for c in ("bias", "resolution")}
    out["n_events"] = np.array(t["n_events"], float)
    for s in ("low", "high", "center"):
        out[s] = np.array(t[f"{et}_energy_{s}"].to_value(u.TeV))
    return out


def reference(op, ev):
    k = op["op"]
    eb = list(gen.energy_bins(op["ebins"]).to_value(u.TeV))
    col = lambda c, un: [float(x) for x in (ev[c].to_value(un) if un else np.asarray(ev[c]))]
    n = len(ev)
    if k in ("psf", "edisp", "migra"):
        fb = list(gen.angle_bins(op["fov"]).to_value(u.deg))
        te, off = col("true_energy", u.TeV), col("true_source_fov_offset", u.deg)
        if k == "psf":
            sb = gen.angle_bins(op["src"])
            x, xb = col("theta", u.deg), list(sb.to_value(u.deg))
            w = np.diff([ref.cone(a) for a in sb.to_value(u.rad)])
            h = ref.hist_nd([te, off, x], [eb, fb, xb])
            v = np.zeros((len(eb) - 1, len(fb) - 1, len(xb) - 1))
            for i, c in h.items():
                v[i] = c
            s = v.sum(axis=2, keepdims=True)
            return {"v": np.where(s > 0, v / np.where(s > 0, s, 1) / w, 0.0)}
        if k == "edisp":
            # the ratio, computed in the precision of the table
            x = [float(a) for a in np.asarray((ev["reco_energy"] / ev["true_energy"]).to_value(u.one))]
            xb = list(gen.migra_bins(op["mig"]))
            w = np.diff(xb)
        else:
            x, xb = col("reco_energy", u.TeV), list(gen.energy_bins(op["rbins"]).to_value(u.TeV))
            w = np.ones(len(xb) - 1)
        h = ref.hist_nd([te, x, off], [eb, xb, fb])
        v = np.zeros((len(eb) - 1, len(xb) - 1, len(fb) - 1))
        for i, c in h.items():
            v[i] = c
        s = v.sum(axis=1, keepdims=True)
        return {"v": np.where(s > 0, v / np.where(s > 0, s, 1) / w[None, :, None], 0.0)}
    key = op["by"] if k == "percentile" else op["etype"] + "_energy"
    keyunit = ev[key].unit
    kb = [float(x) for x in gen.energy_bins(op["ebins"]).to_value(keyunit)]
    kv = col(key, keyunit)
    groups = [[] for _ in eb[:-1]]
    for i in range(n):
        b = ref.find_bin(kv[i], kb, False)
        if b is not None:
            groups[b].append(i)
    out = {"n_events": np.array([len(g) for g in groups], float), "low": np.array(eb[:-1]), "high": np.array(eb[1:]),
           "center": 0.5 * (np.array(eb[:-1]) + np.array(eb[1:]))}
    if k == "percentile":
        x = col(op["values"], u.deg if op["values"] == "theta" else None)
        ps = op["pct"] if isinstance(op["pct"], list) else [op["pct"]]
        need = 10 if op["default_min"] else op["min_events"]
        v = np.empty((len(groups), len(ps)))
        for b, g in enumerate(groups):
            for j, p in enumerate(ps):
                if len(g) < need:
                    v[b, j] = op["fill"]
                    continue
                y = ref.percentile([x[i] for i in g], p)
                if op["min"] is not None:
                    y = max(y, op["min"]) if y == y else y
                if op["max"] is not None:
                    y = min(y, op["max"]) if y == y else y
                v[b, j] = y
        if op["smoothing"] is not None:
            if np.isnan(v).any():
                return None
            v = np.column_stack([smooth(c, op["smoothing"]) for c in v.T])
        out["v"] = v if isinstance(op["pct"], list) else v[:, 0]
        return out
    if k == "angres":
        th = col("theta", u.deg)
        qs = op["q"] if isinstance(op["q"], list) else [ONE_SIGMA if op["q"] is None else op["q"]]
        for q in qs:
            out[f"angular_resolution_{q * 100:.0f}"] = np.array([ref.percentile([th[i] for i in g], 100 * q) for g in groups])
        return out
    te, re = col("true_energy", u.TeV), col("reco_energy", u.TeV)
    rel = [b / a - 1 for a, b in zip(te, re)]
    if op["f"] == "mean":
        def bias(g):
            y = [rel[i] for i in g if rel[i] == rel[i]]
            return math.fsum(y) / len(y) if y else math.nan
    else:
        def bias(g):
            return ref.percentile([rel[i] for i in g], 50)
    if op["f"] == "abs68":
        def res(g):
            return ref.percentile([abs(rel[i]) for i in g], 100 * ONE_SIGMA)
    else:
        def res(g):
            y = [rel[i] for i in g]
            return 0.5 * (ref.percentile(y, 100 * SIGMA[2]) - ref.percentile(y, 100 * SIGMA[0]))
    out["bias"] = np.array([bias(g) for g in groups])
    out["resolution"] = np.array([res(g) for g in groups])
    return out


def smooth(v, sigma):
    """Gaussian weights of all bins up to four standard deviations, the first and last one repeated outside."""
    m = int(4 * sigma + 0.5)
    w = [math.exp(-0.5 * (j / sigma) ** 2) for j in range(-m, m + 1)]
    n = len(v)
    return np.array([math.fsum(w[j + m] * v[min(max(i + j, 0), n - 1)] for j in range(-m, m + 1)) / math.fsum(w) for i in range(n)])


def quantile_ranges(v, edges):
    """Interval in which each of the three quantiles of a dispersion row lies, or None for empty rows."""
    out = {}
    for i in np.ndindex(v.shape[0], v.shape[2]):
        cdf = np.cumsum(v[i[0], :, i[1]] * np.diff(edges))
        if not cdf[-1] > 0:
            out[i] = None
            continue
        out[i] = []
        for q in SIGMA:
            lo = next((k for k, c in enumerate(cdf) if c >= q - 1e-9), len(cdf) - 1)
            hi = next((k for k, c in enumerate(cdf) if c > q + 1e-9), len(cdf) - 1)
            out[i].append((edges[lo], edges[hi + 1]))
    return out


def outside_ranges(got, v, edges):
    """None, or which bias or resolution is not that of the dispersion, up to one bin of migration."""
    for i, r in quantile_ranges(v, edges).items():
        b, res = got["@bias"][i], got["@resolution"][i]
        if r is None:
            if b == b or res == res:
                return f"bias and resolution {b!r} {res!r} of an empty row {i}"
            continue
        low, med, high = r
        if not med[0] - 1 - 1e-9 <= b <= med[1] - 1 + 1e-9:
            return f"bias{list(i)} {b!r} outside of {[x - 1 for x in med]}"
        if not 0.5 * (high[0] - low[1]) - 1e-9 <= res <= 0.5 * (high[1] - low[0]) + 1e-9:
            return f"resolution{list(i)} {res!r}, quantiles in {low} and {high}"
    return None


def compare(name, got, want, rtol, atol):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return f"{name}: shape {got.shape}, expected {want.shape}"
    with np.errstate(all="ignore"):
        ok = (np.isnan(want) & np.isnan(got)) | (got == want) | (np.abs(got - want) <= np.maximum(rtol * np.abs(want), atol))
    if ok.all():
        return None
    i = tuple(int(x) for x in np.argwhere(~ok)[0])
    return f"{name}{list(i)}: {got[i]!r}, expected {want[i]!r}"


def table_for(plan):
    e, a, o, ok = [], [], {"theta": [], "migra": []}, True
    for op in plan["ops"]:
        for k in ("ebins", "rbins"):
            if k in op:
                ok = ok and op[k]["unit"] == "TeV"
                e.extend(gen.energy_bins(op[k]).to_value(u.TeV).tolist())
        if "fov" in op:
            ok = ok and op["fov"]["unit"] == "deg"
            a.extend(gen.angle_bins(op["fov"]).to_value(u.deg).tolist())
        if "src" in op:
            ok = ok and op["src"]["unit"] == "deg"
            o["theta"].extend(gen.angle_bins(op["src"]).to_value(u.deg).tolist())
        if "mig" in op:
            o["migra"].extend(gen.migra_bins(op["mig"])[[0, -1]])
    return gen.events(plan["events"], e, a, (), o) if ok else gen.events(plan["events"])


def run(plan, ctx):
    import warnings
    from astropy.table import vstack

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    full = table_for(plan)
    n = len(full)
    ops = plan["ops"]
    for op in ops:
        ctx.shape(op["op"])
        ctx.probe("op_" + op["op"])

    def payload(b):
        return full[np.array([i for i in b["rows"] if i < n], dtype=int)]

    cl = Cluster(plan["cluster"], ctx, lambda t: t, payload)
    try:
        results = cl.run(plan["batches"])
    except NoProgress as e:
        ctx.violate("no_progress", e)
        return
    canonical = full[np.array(sorted(i for b in plan["batches"] for i in b["rows"] if i < n), dtype=int)]
    parts = [results[b] for b in cl.arrival]
    arrived = vstack(parts, metadata_conflicts="silent") if parts else full[:0]
    f4 = plan["events"]["dtype"] == "f4"
    rtol, atol = (2e-5, 1e-6) if f4 else (1e-8, 1e-11)
    state = snap.process_state()
    # killed attempts first: they must not influence the one that succeeds
    for kl in plan["kills"]:
        if not ops:
            break
        op = ops[kl["op"] % len(ops)]
        task, sim = run_single(lambda: compute(op, arrived), interrupts=[(kl["step"], kl["how"])])
        ctx.steps += sim.steps
        for name, where, line in sim.interrupts_fired:
            ctx.fault("worker_killed" if name == "SimCrash" else "worker_" + name)
            ctx.shape("killed", where, line)
    for op in ops:
        got = compute(op, arrived)
        again = compute(op, canonical)
        want = reference(op, canonical)
        ctx.note(op["op"], sorted((c, np.round(np.nan_to_num(v, posinf=-1), 5).tolist()) for c, v in got.items()))
        for k in sorted(set(got) | set(again)):
            ctx.units += 1
            d = compare(f"{op['op']} {k}", got[k], again[k], 1e-6 if f4 else 1e-12, atol if f4 else 1e-13) \
                if k in got and k in again else f"{k} missing"
            if d:
                ctx.violate("depends_on_arrival_order", d)
                return
        if want is None:
            continue
        if op["op"] == "edisp":
            d = outside_ranges(got, want["v"], gen.migra_bins(op["mig"]))
            if d:
                ctx.violate("wrong_table", d)
                return
        for k in sorted(set(got) | set(want)):
            if k.startswith("@"):
                continue
            ctx.units += 1
            scale = np.abs(np.asarray(want[k], float)) if k in want else np.zeros(1)
            scale = scale[np.isfinite(scale)]
            scale = scale.max() if scale.size else 1
            if op["op"] == "ebias":
                # differences of numbers around one
                scale = max(scale, 1)
            d = compare(f"{op['op']} {k}", got[k], want[k], rtol, atol * scale) \
                if k in got and k in want else f"{op['op']}: {k} only in one of result and definition"
            if d:
                ctx.violate("wrong_table", d)
                return
    for d in snap.state_diff(state, snap.process_state()):
        ctx.violate("process_state", d)
    ctx.probe("events", n)
    ctx.probe("empty_list", int(len(canonical) == 0))


def describe(plan):
    return {"ops": [o["op"] for o in plan["ops"]], "events": plan["events"]["n"],
            "batches": [len(b["rows"]) for b in plan["batches"]], "kills": plan["kills"]}
