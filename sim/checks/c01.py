"""C01: batched event processing counts every event exactly once."""
import math

import numpy as np
import astropy.units as u
from astropy.table import QTable

from .. import gen, ref
from ..cluster import Cluster, NoProgress, cluster_plan, partition

ID = "C01"
QUICK = {"runs": 100000, "wall": 75}
THOROUGH = {"runs": 10**7, "wall": 1500}
DROPPABLE = ["batches", "fates", "crashes", "stalls", "ops", "rows"]
RULE = ("a run counts as distinct and non-trivial if at least one message or worker fault fired and the "
        "sequence of deliveries, retries, kills (with the killed line) and operations was not seen before")
REAL = ["pyirf.binning", "pyirf.irf.effective_area", "pyirf.irf.background", "pyirf.sensitivity.estimate_background",
        "pyirf.simulations", "numpy/astropy", "pickle transport of the tables"]
STUB = ["network", "clock", "worker processes (killed by an exception raised at a chosen pyirf line)"]
ASSUMPTIONS = ["events lie on bin edges only where the unit of edges and data makes the comparison exact",
               "merged sums are compared with a relative tolerance of 1e-9 (1e-5 for float32 columns)"]

OPS = ["hist_reco", "hist_true", "hist_other", "aeff_energy", "aeff_fov", "aeff_polar", "aeff_lonlat",
       "bkg2d", "bkg3d", "estimate", "aeff_raw"]


def gen_op(r, name):
    op = {"op": name, "ebins": gen.energy_bins_spec(r, overflow=name.startswith(("hist", "est")))}
    if name == "hist_other":
        op["key"] = r.choice(["theta", "reco_source_fov_offset", "gh_score", "true_source_fov_lon", "multiplicity"])
        op["abins"] = gen.angle_bins_spec(r, hi=r.choice([0.3, 1.0, 5.0]), sym=op["key"].endswith("lon"))
    if name in ("aeff_fov", "aeff_polar", "bkg2d"):
        op["abins"] = gen.angle_bins_spec(r, lo=r.choice([0.0, 0.0, 0.5]), hi=r.choice([3.0, 5.0, 7.0]))
    if name == "aeff_polar":
        op["pbins"] = dict(gen.angle_bins_spec(r, hi=360.0), unit=r.choice(["deg", "rad", "rad"]))
        if r.random() < 0.3:
            op["pbins"].update(lo=30.0, hi=200.0)
        elif r.random() < 0.4:
            op["pbins"].update(hi=180.0, sym=True)
    if name in ("aeff_lonlat", "bkg3d"):
        hi = r.choice([2.0, 4.0, 5.0, 5.0, 8.0])
        op["lon"] = gen.angle_bins_spec(r, hi=hi, sym=True)
        op["lat"] = gen.angle_bins_spec(r, hi=hi * r.choice([1.0, 0.6]), sym=True)
        for k in ("lon", "lat"):
            if r.random() < 0.2:
                op[k].update(sym=False, lo=round(op[k]["hi"] * r.choice([-0.6, -0.2, 0.0, 0.4]), 6))
    if name == "aeff_lonlat":
        op["subpixels"] = r.choice([None, None, 20, 5, 8, 33])
    if name.startswith("bkg"):
        op["t"] = r.choice([1.0, 50.0])
        op["tunit"] = r.choice(["h", "s"])
    if name.startswith("aeff"):
        op["sim"] = gen.siminfo_spec(r, diffuse=name != "aeff_energy" or r.random() < 0.5)
        if name in ("aeff_fov", "aeff_polar", "aeff_lonlat") and op["sim"]["vmax"] == 0:
            op["sim"]["vmax"] = 10.0
    if name == "estimate":
        op["alpha"] = r.choice([1.0, 0.2, 0.05, 3.0])
        op["omin"] = r.choice([0.0, 0.0, 0.5, 1.0])
        op["omax"] = r.choice([1.0, 2.0, 4.0, 6.0])
        if op["omax"] <= op["omin"]:
            op["omax"] = op["omin"] + 1.0
        op["ounit"] = r.choice(["deg", "deg", "rad"])
        op["cbins"] = gen.energy_bins_spec(r)
        op["cunit"] = r.choice(["deg", "rad", "arcmin"])
    return op


def plan(r, tier):
    ev = gen.events_spec(r, max_n=60 if tier == "quick" else r.choice([60, 300]))
    if r.random() < 0.08:
        ev["n"] = gen.large_n(r)
        ev["narrow"] = r.random() < 0.2
    elif r.random() < 0.01:
        # more events in one bin than a small integer holds
        ev["n"] = r.choice([65536, 70000, 100000, 150000]) + r.randrange(3)
        ev["narrow"] = True
    if r.random() < 0.7 and ev["weight"] == "none":
        ev["weight"] = r.choice(["float", "int", "quantity"])
    if r.random() < 0.3:
        ev["ptype"] = "mixed"
    names = [r.choice(OPS) for _ in range(r.randint(1, 3))]
    ops = [gen_op(r, n) for n in names]
    batches = partition(r, ev["n"], 6 if ev["n"] < 100 else r.choice([1, 2, 6]))
    return {"events": ev, "ops": ops, "batches": batches, "cluster": cluster_plan(r, len(batches))}




def exact_edges(ops):
    """Edges on which events may lie: only those compared without unit conversion."""
    e, a = [], []
    for op in ops:
        if op["ebins"]["unit"] == "TeV":
            e.extend(gen.energy_bins(op["ebins"]).value.tolist())
        if "abins" in op and op["abins"]["unit"] == "deg" and op.get("key", "x") != "theta":
            a.extend(gen.angle_bins(op["abins"]).value.tolist())
        if "omin" in op and op["ounit"] == "deg":
            a.extend([op["omin"], op["omax"]])
    return e, [x for x in a if x >= 0]


def _unit_ok(ops, spec):
    """All binnings in the exact units, else no event may lie on an edge."""
    for op in ops:
        if op["ebins"]["unit"] != "TeV":
            return False
        for k in ("abins", "lon", "lat"):
            if k in op and op[k]["unit"] != "deg":
                return False
        if op.get("ounit", "deg") != "deg":
            return False
    return True


def other_bins(op):
    if op["key"] == "gh_score":
        return np.linspace(-0.5, 1.0, op["abins"]["n"] + 1)
    if op["key"] == "multiplicity":
        return np.array([1.5, 3.5, 4.5, 7.5])[: op["abins"]["n"] + 1]
    return gen.angle_bins(op["abins"])


def theta_cuts(op):
    b = gen.energy_bins(op["cbins"])
    g = np.random.default_rng(op["cbins"]["seed"])
    t = QTable()
    t["low"] = b[:-1]
    t["high"] = b[1:]
    t["center"] = 0.5 * (b[:-1] + b[1:])
    t["cut"] = u.Quantity(g.uniform(0.02, 0.4, len(b) - 1), u.deg).to(op["cunit"])
    return t


class Missing(Exception):
    pass


def compute(op, ev):
    """One operation on one event list, by the real code.  A plain dict of arrays."""
    from pyirf.binning import create_histogram_table
    from pyirf.irf import (background_2d, background_3d_lonlat, effective_area, effective_area_3d_lonlat,
                           effective_area_3d_polar, effective_area_per_energy, effective_area_per_energy_and_fov)
    from pyirf.sensitivity import estimate_background

    k = op["op"]
    eb = gen.energy_bins(op["ebins"])
    if k == "hist_reco":
        return table_dict(create_histogram_table(ev, eb, "reco_energy") if op["ebins"]["seed"] % 2 else
                          create_histogram_table(ev, eb), "reco_energy")
    if k == "hist_true":
        return table_dict(create_histogram_table(ev, eb, key="true_energy"), "true_energy")
    if k == "hist_other":
        return table_dict(create_histogram_table(ev, other_bins(op), op["key"]), op["key"])
    if k == "estimate":
        un = op["ounit"]
        return table_dict(estimate_background(
            ev, eb, theta_cuts(op), op["alpha"],
            u.Quantity(op["omin"], u.deg).to(un), u.Quantity(op["omax"], u.deg).to(un)), "reco_energy")
    if k == "aeff_energy":
        return {"v": area(effective_area_per_energy(ev, gen.siminfo(op["sim"]), eb))}
    if k == "aeff_raw":
        n = create_histogram_table(ev, eb, "true_energy")["n"]
        g = np.random.default_rng(op["ebins"]["seed"])
        return {"v": area(effective_area(n, g.uniform(1, 1e6, len(n)), u.Quantity(2.5, u.km**2)))}
    if k == "aeff_fov":
        return {"v": area(effective_area_per_energy_and_fov(ev, gen.siminfo(op["sim"]), eb, gen.angle_bins(op["abins"])))}
    if k == "aeff_polar":
        return {"v": area(effective_area_3d_polar(ev, gen.siminfo(op["sim"]), eb, gen.angle_bins(op["abins"]),
                                                  gen.angle_bins(op["pbins"])))}
    if k == "aeff_lonlat":
        return {"v": area(effective_area_3d_lonlat(ev, gen.siminfo(op["sim"]), eb, gen.angle_bins(op["lon"]),
                                                   gen.angle_bins(op["lat"]),
                                                   **({} if op.get("subpixels") is None else {"subpixels": op["subpixels"]})))}
    t = u.Quantity(op["t"], u.h).to(op["tunit"])
    if k == "bkg2d":
        v = background_2d(ev, eb, gen.angle_bins(op["abins"]), t)
    else:
        v = background_3d_lonlat(ev, eb, gen.angle_bins(op["lon"]), gen.angle_bins(op["lat"]), t)
    return {"v": np.array(v.to_value("s-1 TeV-1 sr-1"))}


def area(q):
    return np.array(u.Quantity(q).to_value(u.m**2))


def table_dict(t, key):
    out = {"@low": val(t[key + "_low"]), "@high": val(t[key + "_high"]), "@center": val(t[key + "_center"])}
    for c in t.colnames:
        if c.startswith("n"):
            out[c] = np.array(u.Quantity(t[c]).to_value(u.one), dtype=float)
    return out


def val(x):
    x = u.Quantity(x)
    if x.unit.is_equivalent(u.TeV):
        return np.array(x.to_value(u.TeV))
    if x.unit.is_equivalent(u.deg) and x.unit != u.one:
        return np.array(x.to_value(u.deg))
    return np.array(x.value)


def needs_weight(op):
    return op["op"].startswith("bkg")


def reference(op, ev):
    """Expected result, event by event in plain Python; None where nothing is stated."""
    k = op["op"]
    eb = gen.energy_bins(op["ebins"]).to_value(u.TeV)
    n = len(ev)
    w = None
    if "weight" in ev.colnames:
        w = [float(x) for x in u.Quantity(ev["weight"]).value]
    pt = [str(x) for x in ev["particle_type"]] if "particle_type" in ev.colnames else None

    def col(name, unit):
        return [float(x) for x in ev[name].to_value(unit)] if unit else [float(x) for x in ev[name]]

    def counts(cols, edges, weights=None):
        h = np.zeros([len(e) - 1 for e in edges])
        for i, v in ref.hist_nd(cols, edges, weights).items():
            h[i] = v
        return h

    def hist(key, x, edges, rows, scale=None):
        out = {}
        xs = [x[i] for i in rows]
        ws = None if w is None else [w[i] for i in rows]
        groups = {"": list(range(len(rows)))}
        if pt is not None:
            for j, i in enumerate(rows):
                groups.setdefault("_" + pt[i], []).append(j)
        for g, js in groups.items():
            c = counts([[xs[j] for j in js]], [edges])
            cw = c if ws is None else counts([[xs[j] for j in js]], [edges], [ws[j] for j in js])
            out["n" + g] = c if scale is None else c * scale
            out["n" + g + "_weighted"] = cw if scale is None else cw * scale
        return out

    with np.errstate(all="ignore"):
        if k in ("hist_reco", "hist_true", "hist_other", "estimate"):
            key = {"hist_reco": "reco_energy", "hist_true": "true_energy", "estimate": "reco_energy"}.get(k, op.get("key"))
            rows = range(n)
            scale = None
            if k == "hist_other":
                b = other_bins(op)
                unit = None
                if isinstance(b, u.Quantity):
                    unit = u.deg
                edges = b.to_value(u.deg) if unit else b
                x = col(key, unit)
            else:
                edges = eb
                x = col(key, u.TeV)
            if k == "estimate":
                off = col("reco_source_fov_offset", u.deg)
                rows = [i for i in rows if op["omin"] <= off[i] < op["omax"]]
                cut = theta_cuts(op)
                center = 0.5 * (eb[:-1] + eb[1:])
                cc = cut["center"].to_value(u.TeV)
                cv = cut["cut"].to_value(u.rad)
                ring = ref.cone(math.radians(op["omax"])) - ref.cone(math.radians(op["omin"]))
                scale = np.array([ref.cone(interp(c, cc, cv)) for c in center]) / ring / op["alpha"]
            out = hist(key, x, edges, list(rows), scale)
            out["@low"], out["@high"] = edges[:-1], edges[1:]
            out["@center"] = 0.5 * (edges[:-1] + edges[1:])
            return out
        if k == "aeff_raw":
            g = np.random.default_rng(op["ebins"]["seed"])
            return {"v": counts([col("true_energy", u.TeV)], [eb]) / g.uniform(1, 1e6, len(eb) - 1) * 2.5e6}
        if k.startswith("aeff"):
            s = op["sim"]
            frac_e = np.array([ref.powerlaw_fraction(s["index"], a, b, s["emin"], s["emax"]) for a, b in zip(eb[:-1], eb[1:])])
            a_sim = math.pi * s["impact"] ** 2
            cols, edges = [col("true_energy", u.TeV)], [eb]
            if k == "aeff_energy":
                frac = frac_e
            elif k in ("aeff_fov", "aeff_polar"):
                ab = gen.angle_bins(op["abins"])
                f = np.array([ref.cone_fraction(a, b, math.radians(s["vmin"]), math.radians(s["vmax"]))
                              for a, b in zip(ab.to_value(u.rad)[:-1], ab.to_value(u.rad)[1:])])
                frac = frac_e[:, None] * f
                cols.append(col("true_source_fov_offset", u.deg))
                edges.append(ab.to_value(u.deg))
                if k == "aeff_polar":
                    pb = gen.angle_bins(op["pbins"]).to_value(u.rad)
                    frac = frac[:, :, None] * np.diff(pb) / (2 * math.pi)
                    cols.append(col("true_source_fov_position_angle", u.rad))
                    edges.append(pb)
            else:
                lon, lat = gen.angle_bins(op["lon"]), gen.angle_bins(op["lat"])
                cols += [col("true_source_fov_lon", u.deg), col("true_source_fov_lat", u.deg)]
                edges += [lon.to_value(u.deg), lat.to_value(u.deg)]
                f, tol = lonlat_fraction(lon.to_value(u.rad), lat.to_value(u.rad), s, op.get("subpixels"))
                if f is None:
                    return None
                frac = frac_e[:, None, None] * f
                n_sim = s["n"] * frac
                v = np.where(frac > 0, counts(cols, edges) / n_sim * a_sim, np.nan)
                return {"v": v, "@tol": np.broadcast_to(tol, v.shape)}
            n_sim = s["n"] * frac
            return {"v": np.where(frac > 0, counts(cols, edges) / n_sim * a_sim, np.nan)}
        t = op["t"] * 3600.0
        if k == "bkg2d":
            ab = gen.angle_bins(op["abins"])
            h = counts([col("reco_energy", u.TeV), col("reco_source_fov_offset", u.deg)], [eb, ab.to_value(u.deg)], w)
            om = np.diff([ref.cone(x) for x in ab.to_value(u.rad)])
            return {"v": h / np.diff(eb)[:, None] / t / om}
        lon, lat = gen.angle_bins(op["lon"]), gen.angle_bins(op["lat"])
        h = counts([col("reco_energy", u.TeV), col("reco_source_fov_lon", u.deg), col("reco_source_fov_lat", u.deg)],
                   [eb, lon.to_value(u.deg), lat.to_value(u.deg)], w)
        om = np.diff(lon.to_value(u.rad))[:, None] * np.diff(np.sin(lat.to_value(u.rad)))[None, :]
        return {"v": h / np.diff(eb)[:, None, None] / t / om}


def lonlat_fraction(lon, lat, s, subpixels=None):
    """(fraction of the showers per bin, relative tolerance) or (None, None)."""
    vmin, vmax = math.radians(s["vmin"]), math.radians(s["vmax"])
    area_bin = np.diff(lon)[:, None] * np.diff(np.sin(lat))[None, :]
    corner = np.array([[ref.separation(a, b, 0, 0) for b in lat] for a in lon])
    full = area_bin / (ref.cone(vmax) - ref.cone(vmin))
    # no bin contains the hole in the middle of the viewcone if there is none
    if vmin == 0 and (corner <= vmax * (1 - 1e-9)).all():
        return full, 1e-8
    # as documented: the fraction of the centres of m x m subpixels that are inside the viewcone
    m = 20 if subpixels is None else subpixels
    inside, unclear = np.empty(area_bin.shape), np.empty(area_bin.shape)
    for i in range(len(lon) - 1):
        x = lon[i] + (np.arange(m) + 0.5) / m * (lon[i + 1] - lon[i])
        for j in range(len(lat) - 1):
            y = lat[j] + (np.arange(m) + 0.5) / m * (lat[j + 1] - lat[j])
            d = 2 * np.arcsin(np.sqrt(np.sin(y / 2)[None, :] ** 2 + np.cos(y)[None, :] * np.sin(x / 2)[:, None] ** 2))
            inside[i, j] = ((d <= vmax) & (d >= vmin)).mean()
            near = np.abs(d - vmax) < 1e-7
            if vmin > 0:
                near |= np.abs(d - vmin) < 1e-7
            unclear[i, j] = near.mean()
    tol = 1.5 * unclear / np.maximum(inside - unclear, 1e-9) + 1e-6
    return np.where(inside > unclear, full * inside, np.nan), tol


def interp(x, xs, ys):
    if x <= xs[0]:
        return ys[0]
    for i in range(len(xs) - 1):
        if x <= xs[i + 1]:
            return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])
    return ys[-1]


def compare(name, got, want, rtol, scale):
    """First difference; NaN in ``want`` means nothing is required there."""
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return f"{name}: shape {got.shape}, expected {want.shape}"
    with np.errstate(all="ignore"):
        ok = np.isnan(want) | (got == want) | (np.abs(got - want) <= rtol * np.maximum(np.abs(want), scale))
    if ok.all():
        return None
    i = tuple(int(x) for x in np.argwhere(~ok)[0])
    return f"{name}{list(i)}: {got[i]!r}, expected {want[i]!r}"


def merge(parts):
    out = {}
    for p in parts:
        for k, v in p.items():
            if k.startswith("@"):
                out[k] = v
            else:
                out[k] = v if k not in out else out[k] + v
    return out


def check_dict(ctx, cls, op, got, want, rtol):
    total = 1.0
    tol = want.get("@tol")
    for k in sorted(set(got) | set(want)):
        if k == "@tol":
            continue
        if k not in got:
            ctx.violate(cls, f"{op['op']}: column {k} missing")
            return
        if k not in want:
            if k.startswith("n_") and not np.any(got[k]):
                continue
            ctx.violate(cls, f"{op['op']}: unexpected column {k} = {got[k]}")
            return
        fin = np.asarray(want[k], float)
        fin = fin[np.isfinite(fin)]
        scale = np.abs(fin).max() * 1e-3 if fin.size else 0.0
        d = compare(f"{op['op']} {k}", got[k], want[k], rtol if tol is None or k != "v" else tol, scale)
        ctx.units += 1
        if d:
            ctx.violate(cls, d)
            return


def table_for(plan):
    e, a = exact_edges(plan["ops"]) if _unit_ok(plan["ops"], plan["events"]) else ([], [])
    p = []
    for op in plan["ops"]:
        if "pbins" in op and op["pbins"]["unit"] == "deg":
            p.extend(gen.angle_bins(op["pbins"]).value.tolist())
    o = {"lon": [], "lat": [], "theta": []}
    for op in plan["ops"]:
        for k in ("lon", "lat"):
            if k in op:
                o[k].extend(gen.angle_bins(op[k]).value.tolist())
        if op.get("key") == "theta":
            o["theta"].extend(gen.angle_bins(op["abins"]).value.tolist())
    return gen.events(plan["events"], e, a, p if e or a else [], o if e or a else None)


def run(plan, ctx):
    import warnings

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    full = table_for(plan)
    n = len(full)
    rows = [i for b in plan["batches"] for i in b["rows"] if i < n]
    ev = gen.arranged(full[np.array(rows, dtype=int)], plan["events"])
    ops = [op for op in plan["ops"] if not needs_weight(op) or "weight" in ev.colnames]
    rtol = 1e-5 if plan["events"]["dtype"] == "f4" else 1e-8
    for op in ops:
        ctx.shape(op["op"])
        ctx.probe("op_" + op["op"])

    def payload(b):
        return gen.arranged(full[np.array([i for i in b["rows"] if i < n], dtype=int)], plan["events"])

    def equal(a, b):
        for i, (x, y) in enumerate(zip(a, b)):
            for k in x:
                d = compare(f"{ops[i]['op']} {k}", x[k], y.get(k, np.nan), 1e-12, 0)
                if d or set(x) != set(y):
                    return d or "columns differ"
                if not np.array_equal(np.isnan(np.asarray(x[k], float)), np.isnan(np.asarray(y[k], float))):
                    return f"{k}: NaN pattern differs"
        return None

    cl = Cluster(plan["cluster"], ctx, lambda t: [compute(op, t) for op in ops], payload, equal)
    try:
        results = cl.run(plan["batches"])
    except NoProgress as e:
        ctx.violate("no_progress", e)
        return
    for k, op in enumerate(ops):
        want = reference(op, ev)
        whole = compute(op, ev)
        parts = merge([results[b][k] for b in cl.arrival]) if results else None
        ctx.note(op["op"], sorted((c, np.round(np.nan_to_num(v, posinf=-1, neginf=-1), 6).tolist()) for c, v in whole.items()))
        if want is not None:
            check_dict(ctx, "whole_list_wrong", op, whole, want, rtol)
            if parts is not None:
                check_dict(ctx, "merged_batches_wrong", op, parts, want, rtol)
        elif parts is not None:
            finite = {k: np.where(np.isfinite(v), v, np.nan) for k, v in whole.items()}
            check_dict(ctx, "merged_batches_wrong", op, parts, finite, rtol)
    ctx.probe("events", len(ev))
    ctx.probe("batches", len(plan["batches"]))
    if any(len(b["rows"]) == 0 for b in plan["batches"]):
        ctx.probe("empty_batch")


def describe(plan):
    return {"ops": [o["op"] for o in plan["ops"]], "events": plan["events"]["n"],
            "batches": [len(b["rows"]) for b in plan["batches"]], "cluster": plan["cluster"]}
