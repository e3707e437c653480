"""C02: per-event results do not depend on batching, order or retries."""
import math
import operator

import numpy as np
import astropy.units as u
from astropy.table import QTable

from ..env import REPO
from .. import gen, ref
from ..cluster import Cluster, NoProgress, cluster_plan, partition

ID = "C02"
QUICK = {"runs": 100000, "wall": 60}
THOROUGH = {"runs": 10**7, "wall": 1500}
DROPPABLE = ["batches", "fates", "crashes", "stalls", "ops", "rows"]
RULE = ("a run counts as distinct and non-trivial if at least one message or worker fault fired and the "
        "sequence of deliveries, retries, kills (with the killed line) and operations was not seen before")
REAL = ["pyirf.utils", "pyirf.coordinates", "pyirf.binning.calculate_bin_indices", "pyirf.cuts.evaluate_binned_cut*",
        "pyirf.spectral", "numpy/astropy", "pickle transport of the tables"]
STUB = ["network", "clock", "worker processes (killed by an exception raised at a chosen pyirf line)"]
ASSUMPTIONS = ["angles are compared with 1e-8 deg (float64) or 2e-3 deg (float32), position angles scaled by 1/separation"]

OPS = ["theta", "offset", "pa", "lonlat", "theta_phi", "lon_lat", "binidx", "weights", "cut", "cut_idx", "gh"]
SPECTRA = ["CRAB_HEGRA", "CRAB_MAGIC_JHEAP2015", "PDG_ALL_PARTICLE", "IRFDOC_PROTON_SPECTRUM",
           "IRFDOC_ELECTRON_SPECTRUM", "DAMPE_P_He_SPECTRUM", "powerlaw", "logparabola", "bump", "table"]


def plan_op(r, name):
    op = {"op": name}
    if name == "theta":
        op.update(az=r.uniform(0, 360), alt=r.uniform(-80, 89), unit=r.choice(["deg", "rad"]),
                  per_event=r.random() < 0.3)
    if name in ("offset", "pa", "lonlat", "theta_phi", "lon_lat"):
        op["prefix"] = r.choice(["true", "reco"])
        op["default"] = op["prefix"] == "true" and r.random() < 0.5
    if name in ("binidx", "cut", "cut_idx", "gh"):
        op["key"] = r.choice(["reco_energy", "true_energy"])
        op["bins"] = gen.energy_bins_spec(r, overflow=name == "binidx")
        op["cseed"] = r.randrange(1 << 30)
        op["cmp"] = r.choice(["le", "lt", "ge", "gt"])
        op["cunit"] = r.choice(["deg", "deg", "rad", "arcmin"])
        op["nan_cut"] = r.choice([0.3, 0.6]) if r.random() < 0.2 else 0
    if name == "binidx" and r.random() < 0.4:
        op["key"] = r.choice(["gh_score", "gh_score", "theta", "multiplicity"])
    if name == "weights":
        sim = gen.siminfo_spec(r)
        kind = r.choice(["sim", "sim", "pair"])
        diffuse = ["PDG_ALL_PARTICLE", "IRFDOC_PROTON_SPECTRUM", "IRFDOC_ELECTRON_SPECTRUM", "DAMPE_P_He_SPECTRUM", "powerlaw_d"]
        point = ["CRAB_HEGRA", "CRAB_MAGIC_JHEAP2015", "powerlaw", "logparabola", "bump", "table"]
        if r.random() < 0.5:
            op["target"] = r.choice(diffuse)
            if sim["vmax"] == 0:
                sim["vmax"] = 8.0
            other = r.choice(diffuse)
        else:
            op["target"] = r.choice(point)
            sim["vmin"] = sim["vmax"] = 0.0
            other = r.choice(point)
        if r.random() < 0.3 and op["target"] in diffuse:
            # integrated over a cone: becomes a point-like flux
            if op["target"] not in ("DAMPE_P_He_SPECTRUM", "IRFDOC_ELECTRON_SPECTRUM"):
                op["cone"] = sorted([r.choice([0.0, 0.5, 1.0]), r.choice([2.0, 5.0])])
                sim["vmin"] = sim["vmax"] = 0.0
                other = r.choice(point)
        op["sim"] = sim
        op["other"] = other if kind == "pair" else None
        op["obstime"] = r.choice([0.5, 50.0])
        op["pseed"] = r.randrange(1 << 30)
    return op


def plan(r, tier):
    ev = gen.events_spec(r, max_n=40 if tier == "quick" else r.choice([40, 150]))
    if r.random() < 0.08:
        ev["n"] = gen.large_n(r)
    ops = [plan_op(r, r.choice(OPS)) for _ in range(r.randint(1, 4))]
    if ev["geom"] != "wide":
        if r.random() < 0.6:
            ops.append(plan_op(r, r.choice(["theta", "theta", "offset", "pa", "lonlat", "theta_phi", "lon_lat"])))
        for o in ops:
            if o["op"] == "theta" and r.random() < 0.8:
                o["az"], o["alt"] = gen.centre(ev)
    batches = partition(r, ev["n"], 6 if ev["n"] < 100 else r.choice([1, 2, 6]))
    return {"events": ev, "ops": ops, "batches": batches, "cluster": cluster_plan(r, len(batches))}


# -- spectra: real object and independent formula (plain Python, flux in 1/(TeV s m2 [sr])) --
def params(op):
    g = np.random.default_rng(op["pseed"])
    p = {"norm": 10 ** g.uniform(-12, -9), "index": g.uniform(-3.5, -1.2), "eref": 10 ** g.uniform(-1, 1),
         "b": g.uniform(-0.4, -0.05), "f": g.uniform(0.5, 3), "mu": g.uniform(-0.3, 0.3), "sigma": g.uniform(0.3, 1),
         "te": np.sort(10 ** g.uniform(-2.5, 2.5, 6))}
    p["tf"] = p["norm"] * p["te"] ** p["index"] * np.exp(g.normal(0, 0.2, 6))
    return p


def real_spectrum(name, op):
    from pyirf import spectral as s

    p = params(op)
    if name.isupper() or name == "DAMPE_P_He_SPECTRUM":
        sp = getattr(s, name)
        if op.get("cone") and name == op["target"]:
            sp = sp.integrate_cone(u.Quantity(op["cone"][0], u.deg), u.Quantity(op["cone"][1], u.deg))
        return sp
    unit = u.Unit("cm-2 s-1 TeV-1")
    e = u.Quantity(p["eref"], u.TeV).to(u.GeV)
    if name == "powerlaw":
        return s.PowerLaw(p["norm"] * unit, p["index"], e)
    if name == "powerlaw_d":
        sp = s.PowerLaw(p["norm"] * unit / u.sr, p["index"], e)
        if op.get("cone") and name == op["target"]:
            sp = sp.integrate_cone(u.Quantity(op["cone"][0], u.deg), u.Quantity(op["cone"][1], u.deg))
        return sp
    if name == "logparabola":
        return s.LogParabola(p["norm"] * unit, p["index"], p["b"], e)
    if name == "bump":
        return s.PowerLawWithExponentialGaussian(p["norm"] * unit, p["index"], e, p["f"], p["mu"], p["sigma"])
    t = QTable({"energy": u.Quantity(p["te"], u.TeV).to(u.GeV), "flux": p["tf"] * unit})
    return s.TableInterpolationSpectrum.from_table(t)


def ref_spectrum(name, op):
    p = params(op)
    cm2 = 1e4
    factor = 1.0
    if op.get("cone") and name == op["target"]:
        factor = ref.cone(math.radians(op["cone"][1])) - ref.cone(math.radians(op["cone"][0]))

    def pl(norm, index, eref):
        return lambda e: factor * norm * (e / eref) ** index

    def bump(norm, index, eref, f, mu, sigma):
        return lambda e: norm * (e / eref) ** index * (
            1 + f * (math.exp(math.exp(-0.5 * ((math.log10(e / eref) - mu) / sigma) ** 2)) - 1))

    if name == "CRAB_HEGRA":
        return pl(2.83e-11 * cm2, -2.62, 1.0)
    if name == "CRAB_MAGIC_JHEAP2015":
        return lambda e: 3.23e-11 * cm2 * e ** (-2.47 - 0.24 * math.log10(e))
    if name == "PDG_ALL_PARTICLE":
        return pl(1.8e4 * 1e3, -2.7, 1e-3)
    if name == "IRFDOC_PROTON_SPECTRUM":
        return pl(9.8e-6 * cm2, -2.62, 1.0)
    if name == "IRFDOC_ELECTRON_SPECTRUM":
        return bump(2.385e-9 * cm2, -3.43, 1.0, 1.950, -0.101, 0.741)
    if name in ("powerlaw", "powerlaw_d"):
        return pl(p["norm"] * cm2, p["index"], p["eref"])
    if name == "logparabola":
        return lambda e: p["norm"] * cm2 * (e / p["eref"]) ** (p["index"] + p["b"] * math.log10(e / p["eref"]))
    if name == "bump":
        return bump(p["norm"] * cm2, p["index"], p["eref"], p["f"], p["mu"], p["sigma"])
    if name == "DAMPE_P_He_SPECTRUM":
        te, tf = dampe()
    else:
        te, tf = p["te"], p["tf"] * cm2
    xs = [math.log10(x) for x in te]
    ys = [math.log10(y) for y in tf]

    def table(e):
        x = math.log10(e)
        i = 0
        while i < len(xs) - 2 and x > xs[i + 1]:
            i += 1
        return 10 ** (ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i]))

    return table


_dampe = None


def dampe():
    """The published points, parsed without astropy's table reader."""
    global _dampe
    if _dampe is None:
        lines = [ln for ln in open(REPO + "/pyirf/resources/dampe_p+he.ecsv") if not ln.startswith("#")]
        cols = lines[0].split()
        rows = [[float(x) for x in ln.split()] for ln in lines[1:] if ln.strip()]
        t = QTable.read(REPO + "/pyirf/resources/dampe_p+he.ecsv")
        fe = t["energy"].unit.to(u.TeV)
        ff = t["flux"].unit.to("TeV-1 s-1 m-2 sr-1")
        ie, jf = cols.index("energy"), cols.index("flux")
        _dampe = ([r[ie] * fe for r in rows], [r[jf] * ff for r in rows])
    return _dampe


def ref_simulation(op):
    s = op["sim"]
    i = s["index"]
    om = 1.0
    if s["vmax"] > s["vmin"]:
        om = ref.cone(math.radians(s["vmax"])) - ref.cone(math.radians(s["vmin"]))
    norm = s["n"] * (i + 1) / (math.pi * s["impact"] ** 2 * op["obstime"] * 3600 * om
                               * (s["emax"] ** (i + 1) - s["emin"] ** (i + 1)))
    return lambda e: norm * e**i


def cut_table(op):
    b = gen.energy_bins(op["bins"])
    g = np.random.default_rng(op["cseed"])
    t = QTable()
    t["low"] = b[:-1]
    t["high"] = b[1:]
    t["center"] = 0.5 * (b[:-1] + b[1:])
    if op["op"] == "gh":
        c = np.round(g.normal(0.3, 0.2, len(b) - 1), 2)
        c[g.random(len(c)) < 0.2] = 0.25
        t["cut"] = c
    else:
        t["cut"] = u.Quantity(np.round(np.abs(g.normal(0.1, 0.1, len(b) - 1)), 3), u.deg).to(op["cunit"])
    if op.get("nan_cut"):
        # bins without a cut value
        t["cut"][g.random(len(b) - 1) < op["nan_cut"]] = np.nan
    return t


def other_bins(op):
    n = op["bins"]["n"]
    if op["key"] == "gh_score":
        return np.linspace(-0.5, 1.0, n + 1)
    if op["key"] == "theta":
        return u.Quantity(np.linspace(0.05, 0.5, n + 1), u.deg)
    if op["key"] == "multiplicity":
        return np.array([3, 4, 6, 7, 8, 9])[: n + 1]
    return gen.energy_bins(op["bins"])


def compute(op, t):
    """Row-aligned arrays, by the real code."""
    from pyirf import utils
    from pyirf.binning import OVERFLOW_INDEX, UNDERFLOW_INDEX, calculate_bin_indices
    from pyirf.coordinates import gadf_fov_coords_lon_lat, gadf_fov_coords_theta_phi
    from pyirf.cuts import evaluate_binned_cut, evaluate_binned_cut_by_index
    from pyirf.spectral import PowerLaw, calculate_event_weights

    k = op["op"]
    deg = lambda q: np.array(u.Quantity(q).to_value(u.deg), dtype=float)
    if k == "theta":
        az, alt = u.Quantity(op["az"], u.deg).to(op["unit"]), u.Quantity(op["alt"], u.deg).to(op["unit"])
        if op["per_event"]:
            az, alt = np.full(len(t), az.value) * az.unit, np.full(len(t), alt.value) * alt.unit
        return {"v": deg(utils.calculate_theta(t, az, alt))}
    if k == "offset":
        return {"v": deg(utils.calculate_source_fov_offset(t) if op["default"] else
                         utils.calculate_source_fov_offset(t, prefix=op["prefix"]))}
    if k == "pa":
        return {"v": deg(utils.calculate_source_fov_position_angle(t) if op["default"] else
                         utils.calculate_source_fov_position_angle(t, prefix=op["prefix"]))}
    if k == "lonlat":
        a, b = utils.calculate_source_fov_lonlat(t) if op["default"] else utils.calculate_source_fov_lonlat(t, prefix=op["prefix"])
        return {"lon": deg(a), "lat": deg(b)}
    p = op.get("prefix")
    if k == "theta_phi":
        a, b = gadf_fov_coords_theta_phi(t[p + "_az"], t[p + "_alt"], t["pointing_az"], t["pointing_alt"])
        return {"theta": deg(a), "v": deg(b)}
    if k == "lon_lat":
        a, b = gadf_fov_coords_lon_lat(t[p + "_az"], t[p + "_alt"], t["pointing_az"], t["pointing_alt"])
        return {"lon": deg(a), "lat": deg(b)}
    if k == "binidx":
        x = t[op["key"]]
        idx, valid = calculate_bin_indices(x if isinstance(x, u.Quantity) else np.asarray(x), other_bins(op))
        out = np.array(idx).astype(float)
        out[np.asarray(idx) == UNDERFLOW_INDEX] = -1
        out[np.asarray(idx) == OVERFLOW_INDEX] = -2
        return {"idx": out, "valid": np.array(valid).astype(float)}
    if k == "weights":
        sim = PowerLaw.from_simulation(gen.siminfo(op["sim"]), u.Quantity(op["obstime"], u.h)) if op["other"] is None \
            else real_spectrum(op["other"], op)
        return {"w": np.array(u.Quantity(calculate_event_weights(t["true_energy"], real_spectrum(op["target"], op), sim)).value)}
    c = cut_table(op)
    col = "gh_score" if k == "gh" else "theta"
    f = getattr(operator, op["cmp"])
    if k == "cut_idx":
        idx, valid = calculate_bin_indices(t[op["key"]], np.append(c["low"], c["high"][-1:]))
        return {"pass": np.array(evaluate_binned_cut_by_index(t[col], idx, valid, c, f)).astype(float)}
    return {"pass": np.array(evaluate_binned_cut(t[col], t[op["key"]], c, f)).astype(float)}


def reference(op, t, j):
    """The same for one event, from its definition.  {name: (value, abs tol, period)}"""
    k = op["op"]
    f4 = t["reco_az"].dtype.itemsize == 4
    tol = 2e-3 if f4 else 1e-8
    rad = lambda c: float(t[c][j].to_value(u.rad))
    if k == "theta":
        v = ref.separation(math.radians(op["az"]), math.radians(op["alt"]), rad("reco_az"), rad("reco_alt"))
        return {"v": (math.degrees(v), tol, None)}
    p = op.get("prefix")
    if p:
        lon, lat, plon, plat = rad(p + "_az"), rad(p + "_alt"), rad("pointing_az"), rad("pointing_alt")
        sep = ref.separation(plon, plat, lon, lat)
    if k == "offset":
        return {"v": (math.degrees(sep), tol, None)}
    if k in ("pa", "theta_phi"):
        phi = (-ref.position_angle(plon, plat, lon, lat)) % (2 * math.pi)
        out = {"v": (math.degrees(phi), tol / sep if sep > 1e-11 else 400.0, 360.0)}
        if k == "theta_phi":
            out["theta"] = (math.degrees(sep), tol, None)
        return out
    if k in ("lonlat", "lon_lat"):
        a, b = ref.fov_lonlat(lon, lat, plon, plat)
        return {"lon": (-math.degrees(a), tol * 20, 360.0), "lat": (math.degrees(b), tol * 20, None)}
    if k == "binidx":
        b = other_bins(op)
        x = t[op["key"]][j]
        if isinstance(b, u.Quantity):
            x, e = float(x.to_value(t[op["key"]].unit)), b.to_value(t[op["key"]].unit)
        else:
            x, e = float(x), b
        i = ref.find_bin(x, list(e), False)
        if i is None:
            i = -1 if x < e[0] else -2
        return {"idx": (i, 0, None), "valid": (float(i >= 0), 0, None)}
    if k == "weights":
        e = float(t["true_energy"][j].to_value(u.TeV))
        s = ref_simulation(op) if op["other"] is None else ref_spectrum(op["other"], op)
        w = ref_spectrum(op["target"], op)(e) / s(e)
        return {"w": (w, abs(w) * (2e-4 if f4 else 1e-8), None)}
    c = cut_table(op)
    key = t[op["key"]]
    edges = list(c["low"].to_value(key.unit)) + [c["high"].to_value(key.unit)[-1]]
    i = ref.find_bin(float(key[j].value), edges, False)
    col = t["gh_score" if k == "gh" else "theta"]
    f = getattr(operator, op["cmp"])
    if i is None:
        return {"pass": (0.0, 0, None)}
    cut = c["cut"][i]
    if k == "gh":
        x, y = float(col[j]), float(cut)
    else:
        x, y = float(col[j].to_value(u.deg)), float(cut.to_value(u.deg))
        if x == x and abs(x - y) < 1e-6 * max(1, abs(y)):
            return {}  # equal up to unit conversion
    return {"pass": (float(f(x, y)), 0, None)}


def near(got, want, tol, period):
    if want != want or got != got:
        return (want != want) == (got != got)
    d = got - want
    if period:
        d = (d + period / 2) % period - period / 2
    return abs(d) <= tol


def table_for(plan):
    e = []
    ok = True
    for op in plan["ops"]:
        if "bins" in op:
            ok = ok and op["bins"]["unit"] == "TeV"
            e.extend(gen.energy_bins(op["bins"]).to_value(u.TeV).tolist())
    t = gen.events(plan["events"], e if ok else [])
    if plan["events"]["edges"] and len(t):
        for op in plan["ops"]:
            if op["op"] == "binidx" and op["key"] == "gh_score":
                # scores which lie exactly on an edge
                g = np.random.default_rng(op["cseed"])
                k = g.random(len(t)) < 0.3
                t["gh_score"][k] = g.choice(other_bins(op), k.sum())
    return t


def sample(n):
    """Positions looked at: all, or in very long batches 3000 spread over the batch and all at the beginning and end."""
    if n <= 6000:
        return range(n)
    return sorted({*range(300), *range(n - 300, n), *range(0, n, n // 3000 + 1)})


def run(plan, ctx):
    import warnings

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    full = table_for(plan)
    n = len(full)
    ops = plan["ops"]
    for op in ops:
        ctx.shape(op["op"])
        ctx.probe("op_" + op["op"])

    def rows(b):
        return [i for i in b["rows"] if i < n]

    def payload(b):
        return full[np.array(rows(b), dtype=int)]

    def equal(x, y):
        for a, b in zip(x, y):
            for k in a:
                if not np.array_equal(a[k], b[k], equal_nan=True):
                    return f"{k}: {a[k]} != {b[k]}"
        return None

    cl = Cluster(plan["cluster"], ctx, lambda t: [compute(op, t) for op in ops], payload, equal)
    try:
        results = cl.run(plan["batches"])
    except NoProgress as e:
        ctx.violate("no_progress", e)
        return
    sel = full[np.array([i for b in plan["batches"] for i in rows(b)], dtype=int)]
    for k, op in enumerate(ops):
        whole = compute(op, sel)
        pos = 0
        refs = {}
        for b in range(len(plan["batches"])):
            rr = rows(plan["batches"][b])
            got = results[b][k]
            for name in got:
                if len(got[name]) != len(rr):
                    ctx.violate("wrong_length", f"{op['op']} {name}: {len(got[name])} values for {len(rr)} events")
                    return
            for m in sample(len(rr)):
                i = rr[m]
                if i not in refs:
                    refs[i] = reference(op, full, i)
                for name, (want, tol, period) in refs[i].items():
                    ctx.units += 1
                    if not near(float(got[name][m]), want, tol, period):
                        ctx.violate("event_value_wrong", f"{op['op']} {name}: event {i} in batch {b} position {m}: "
                                    f"{got[name][m]!r}, by definition {want!r}")
                        return
                    if not near(float(whole[name][pos + m]), want, tol, period):
                        ctx.violate("event_value_wrong", f"{op['op']} {name}: event {i} in the whole list: "
                                    f"{whole[name][pos + m]!r}, by definition {want!r}")
                        return
            pos += len(rr)
        ctx.note(op["op"], sorted((c, np.round(v, 5).tolist()) for c, v in whole.items()))
    ctx.probe("events", n)
    ctx.probe("batches", len(plan["batches"]))


def describe(plan):
    return {"ops": [o["op"] for o in plan["ops"]], "events": plan["events"]["n"],
            "batches": [len(b["rows"]) for b in plan["batches"]], "cluster": plan["cluster"]}
