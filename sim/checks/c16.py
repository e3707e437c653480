"""C16: an analysis interrupted and resumed gives the same products."""
import gc
import io
import json
import operator
import os
import warnings

import numpy as np
import astropy.units as u
from astropy import table
from astropy.io import fits
from astropy.table import QTable, Table

from .. import ops
from .. import snapshot as snap
from ..disk import Disk
from ..runner import in_child
from ..sched import Sim
from pyirf import binning, cuts, spectral, utils
from pyirf.benchmarks import angular_resolution, energy_bias_resolution
from pyirf.cut_optimization import optimize_cuts, optimize_gh_cut
from pyirf.io import (create_aeff2d_hdu, create_background_2d_hdu, create_background_3d_hdu, create_energy_dispersion_hdu,
                      create_psf_table_hdu, create_rad_max_hdu, read_eventdisplay_fits)
from pyirf import irf as irfs
from pyirf.irf.energy_dispersion import energy_dispersion_to_migration, energy_migration_matrix
from pyirf.interpolation import EffectiveAreaEstimator, RadMaxEstimator
from pyirf.sensitivity import calculate_sensitivity, estimate_background
from pyirf.simulations import SimulatedEventsInfo

ID = "C16"
QUICK = {"runs": 100000, "wall": 120}
THOROUGH = {"runs": 10**7, "wall": 1800}
DROPPABLE = ["sessions", "attempts", "between", "faults"]
RULE = ("a run counts as distinct and non-trivial if at least one stage was killed, cancelled or hit by a disk error, or the "
        "processes also ran another analysis, and the combination of analyses and places was not seen before")
REAL = ["all stages of the analysis in pyirf", "astropy tables and FITS files", "numpy", "scipy"]
STUB = ["disk below the stored tables", "place and kind of kills and cancellations", "order in which stages are resumed"]
ASSUMPTIONS = ["a stored stage is published by an atomic rename", "products are compared to a relative 1e-9"]

T_OBS = 50 * u.hour
TARGET = {"gamma": "CRAB_HEGRA", "proton": "IRFDOC_PROTON_SPECTRUM", "electron": "IRFDOC_ELECTRON_SPECTRUM"}


# ------------------------------------------------------------------ configuration and input files
def config(r):
    return {
        "seed": r.randrange(1 << 30), "n": {"gamma": r.choice([60, 250, 600]), "proton": r.choice([40, 200, 500]), "electron": r.choice([0, 60, 200])},
        "opt": r.choice(["gh", "gh", "all", "none"]), "bpd": r.choice([1, 2, 3]), "overflow": r.random() < 0.5,
        "format": r.choice(["fits", "fits", "fits", "ecsv"]), "diffuse": r.random() < 0.6, "hist": r.random() < 0.7,
        "ftype": r.choice(["f8", "f8", "f4"]), "alpha": r.choice([0.2, 0.5, 1.0]), "effs": r.choice([3, 5]),
        "dims": r.sample(["2d", "polar", "lonlat", "energy"], 2), "smoothing": r.choice([None, None, 1.0]),
        "named": r.random() < 0.5,
        "spectra": r.choice(["crab", "log"]), "migra": r.choice([6, 25]), "wide": r.random() < 0.5,
    }


def raw_files(cfg):
    """EventDisplay-like input file of every particle type."""
    out = {}
    for i, p in enumerate(TARGET):
        g = np.random.default_rng([cfg["seed"], i])
        n = cfg["n"][p]
        e = 10 ** (g.exponential(0.5, n) - 1.7)
        e = np.clip(e, 0.02, 90)
        on_edge = g.random(n) < 0.1
        # between the bins, at most a relative 1e-9 apart from an edge
        e[on_edge] = 10 ** (np.log10(0.02) + g.integers(0, 10, on_edge.sum()) / (cfg["bpd"] + 1)) * (1 + g.choice([-1e-9, 1e-9], on_edge.sum()))
        near = g.random(n) < 0.1
        rec = e * np.exp(g.normal(0, 0.2, n))
        rec[near] = 10 ** (np.log10(0.02) + g.integers(0, 3 * cfg["bpd"], near.sum()) / cfg["bpd"]) * (1 + g.choice([-1e-9, 1e-9], near.sum()))
        spread = 3.0 if p != "gamma" or cfg["diffuse"] else 0.0
        alt = np.full(n, 70.0)
        az = np.where(g.random(n) < 0.5, 0.0, 180.0)
        talt = alt + g.uniform(-spread, spread, n)
        taz = (az + g.uniform(-spread, spread, n)) % 360
        s = 0.05 if p == "gamma" else 0.5
        f = ">" + cfg["ftype"]
        c = {
            "OBS_ID": g.integers(1, 6, n).astype(">i4"), "EVENT_ID": np.arange(n, dtype=">i4"), "MC_ENERGY": e.astype(f),
            "ENERGY": rec.astype(f), "MC_ALT": talt.astype(f), "MC_AZ": taz.astype(f),
            "PNT_ALT": alt.astype(f), "PNT_AZ": az.astype(f), "ALT": (talt + g.normal(0, s, n)).astype(f),
            "AZ": ((taz + g.normal(0, s, n) / np.cos(np.deg2rad(70))) % 360).astype(f),
            "GH_MVA": g.normal(0.5 if p == "gamma" else -0.2, 0.4, n).astype(f), "MULTIP": g.integers(2, 6, n).astype(">i4"),
        }
        unit = {"MC_ENERGY": "TeV", "ENERGY": "TeV", "MC_ALT": "deg", "MC_AZ": "deg", "PNT_ALT": "deg", "PNT_AZ": "deg", "ALT": "deg", "AZ": "deg"}
        ev = fits.BinTableHDU.from_columns([fits.Column(name=k, array=v, format={"f4": "E", "f8": "D", "i4": "J"}[v.dtype.str[1:]], unit=unit.get(k))
                                            for k, v in c.items()], name="EVENTS")
        h = Table({"EVENTS": g.integers(10**4, 10**6, 10).astype(float)})
        t = Table({"num_use": [10], "num_showers": [20000], "E_range": [[0.01, 100.0]], "core_range": [[0.0, 1000.0]],
                   "spectral_index": [-2.0], "viewcone": [[0.0, 0.0 if p == "gamma" and not cfg["diffuse"] else 6.0]]})
        b = io.BytesIO()
        fits.HDUList([fits.PrimaryHDU(), ev, fits.BinTableHDU(h, name="SIMULATED EVENTS"), fits.BinTableHDU(t, name="RUNHEADER")]).writeto(b)
        out[p] = b.getvalue()
    return out


def bins(cfg):
    b = {"reco": binning.create_bins_per_decade(0.02 * u.TeV, 50 * u.TeV, cfg["bpd"]),
         "true": binning.create_bins_per_decade(0.02 * u.TeV, 50 * u.TeV, cfg["bpd"] + 1)}
    if cfg["overflow"]:
        b = {k: binning.add_overflow_bins(v) for k, v in b.items()}
    b["offset"] = np.array([0, 1.5, 4.0]) * u.deg if cfg["wide"] else [0, 1.0] * u.deg
    b["source"] = np.linspace(0, 1, 11) * u.deg
    b["migra"] = np.geomspace(0.2, 5, cfg["migra"] + 1)
    b["pa"] = np.linspace(0, 360, 3) * u.deg
    b["lon"] = np.linspace(-4, 4, 4) * u.deg
    return b


# ------------------------------------------------------------------ stages: inputs -> outputs, by name
def info_dict(i):
    return {"n": int(i.n_showers), "e": [i.energy_min.to_value("TeV"), i.energy_max.to_value("TeV")], "r": i.max_impact.to_value("m"),
            "g": float(i.spectral_index), "v": [i.viewcone_min.to_value("deg"), i.viewcone_max.to_value("deg")]}


def info_of(d):
    return SimulatedEventsInfo(n_showers=d["n"], energy_min=d["e"][0] * u.TeV, energy_max=d["e"][1] * u.TeV, max_impact=d["r"] * u.m,
                               spectral_index=d["g"], viewcone_min=d["v"][0] * u.deg, viewcone_max=d["v"][1] * u.deg)


def stages(cfg, raw):
    """[(name, inputs, function)] in a valid order; a function takes and returns dictionaries."""
    B = bins(cfg)
    out = []

    def add(name, needs):
        def deco(f):
            out.append((name, needs, f))
            return f
        return deco

    for p in TARGET:
        @add("dl2_" + p, [])
        def _(x, p=p):
            ev, info = read_eventdisplay_fits(raw[p], use_histogram=cfg["hist"])
            ev["particle_type"] = np.full(len(ev), p, dtype="U8")
            return {"events": ev, "info": info}

        @add("weights_" + p, ["dl2_" + p])
        def _(x, p=p):
            ev, info = x["dl2_" + p]["events"], x["dl2_" + p]["info"]
            target = getattr(spectral, TARGET[p])
            if p == "gamma" and cfg["spectra"] == "log":
                target = spectral.CRAB_MAGIC_JHEAP2015
            if p == "gamma" and info.viewcone_max.value > 0:
                # a diffuse simulation of a point source
                sim = spectral.PowerLaw.from_simulation(info, T_OBS).integrate_cone(0 * u.deg, info.viewcone_max)
            else:
                sim = spectral.PowerLaw.from_simulation(info, T_OBS)
            w = spectral.calculate_event_weights(ev["true_energy"], target, sim)
            return {"weights": QTable({"weight": u.Quantity(w, u.one).value})}

        @add("fov_" + p, ["dl2_" + p])
        def _(x, p=p):
            ev = x["dl2_" + p]["events"]
            t = QTable()
            for k in ("true", "reco"):
                t[k + "_source_fov_offset"] = utils.calculate_source_fov_offset(ev, prefix=k)
                lon, lat = utils.calculate_source_fov_lonlat(ev, prefix=k)
                t[k + "_source_fov_lon"], t[k + "_source_fov_lat"] = lon, lat
                t[k + "_source_fov_position_angle"] = utils.calculate_source_fov_position_angle(ev, prefix=k)
            if p == "gamma" and cfg["diffuse"]:
                t["theta"] = utils.calculate_theta(ev, ev["true_az"], ev["true_alt"])
            else:
                t["theta"] = utils.calculate_theta(ev, ev["pointing_az"], ev["pointing_alt"])
            return {"fov": t}

        @add("events_" + p, ["dl2_" + p, "weights_" + p, "fov_" + p])
        def _(x, p=p):
            ev = table.hstack([x["dl2_" + p]["events"], x["weights_" + p]["weights"], x["fov_" + p]["fov"]], metadata_conflicts="silent")
            return {"events": ev}

    ev3 = ["events_proton", "events_electron"]

    def background(x):
        return table.vstack([x[k]["events"] for k in ev3], metadata_conflicts="silent")

    @add("theta_cuts", ["events_gamma"])
    def _(x):
        ev = x["events_gamma"]["events"]
        m = ev["gh_score"] > np.quantile(ev["gh_score"], 0.4)
        kw = {} if cfg["smoothing"] is None else {"smoothing": cfg["smoothing"]}
        c = cuts.calculate_percentile_cut(ev["theta"][m], ev["reco_energy"][m], B["reco"], fill_value=0.32 * u.deg, min_value=0.05 * u.deg,
                                          max_value=0.32 * u.deg, percentile=68, min_events=5, **kw)
        return {"cuts": c}

    if cfg["opt"] != "none":
        @add("optimize", ["events_gamma", "theta_cuts"] + ev3)
        def _(x):
            e = np.linspace(0.2, 0.8, cfg["effs"])
            g, b = x["events_gamma"]["events"], background(x)
            if cfg["opt"] == "gh":
                s, gh = optimize_gh_cut(g, b, B["reco"], e, x["theta_cuts"]["cuts"], alpha=cfg["alpha"], progress=False)
                return {"sensitivity": s, "gh": gh}
            s, m, th, gh = optimize_cuts(g, b, B["reco"], [2, 3], e[:2], np.array([0.68, 0.8]), alpha=cfg["alpha"], progress=False)
            return {"sensitivity": s, "gh": gh, "theta": th, "mult": m}
        last = ["optimize"]
    else:
        @add("optimize", ["events_gamma"])
        def _(x):
            ev = x["events_gamma"]["events"]
            return {"gh": cuts.calculate_percentile_cut(ev["gh_score"], ev["reco_energy"], B["reco"], fill_value=0.1, percentile=40, min_events=3)}
        last = ["optimize"]

    def masks(x, ev):
        t = x["optimize"].get("theta", x["theta_cuts"]["cuts"])
        gh = cuts.evaluate_binned_cut(ev["gh_score"], ev["reco_energy"], x["optimize"]["gh"], operator.ge)
        th = cuts.evaluate_binned_cut(u.Quantity(ev["theta"]), ev["reco_energy"], t, operator.le)
        return gh, th

    for p in TARGET:
        @add("select_" + p, ["events_" + p, "theta_cuts"] + last)
        def _(x, p=p):
            gh, th = masks(x, x["events_" + p]["events"])
            return {"mask": QTable({"gh": np.asarray(gh), "theta": np.asarray(th)})}

    sel = ["events_gamma", "select_gamma"]

    def selected(x, p, *which):
        m = np.ones(len(x["events_" + p]["events"]), dtype=bool)
        for w in which:
            m &= np.asarray(x["select_" + p]["mask"][w], dtype=bool)
        return x["events_" + p]["events"][m]

    @add("sensitivity", ["theta_cuts", "optimize"] + [a + b for a in ("events_", "select_") for b in TARGET])
    def _(x):
        g = selected(x, "gamma", "gh", "theta")
        t = x["optimize"].get("theta", x["theta_cuts"]["cuts"])
        b = table.vstack([selected(x, "proton", "gh"), selected(x, "electron", "gh")], metadata_conflicts="silent")
        sig = binning.create_histogram_table(g, B["reco"])
        bkg = estimate_background(b, B["reco"], t, cfg["alpha"], 0 * u.deg, 2 * u.deg)
        s = calculate_sensitivity(sig, bkg, cfg["alpha"])
        s["flux"] = s["relative_sensitivity"] * spectral.CRAB_HEGRA(np.minimum(s["reco_energy_center"], 100 * u.TeV))
        return {"sensitivity": s, "signal": sig, "background": bkg}

    cards = {"TELESCOP": "CTA", "OBS_ID": int(cfg["seed"] % 1000)}

    @add("aeff", sel + ["dl2_gamma"])
    def _(x):
        g, info = selected(x, "gamma", "gh", "theta"), x["dl2_gamma"]["info"]
        hdus = []
        a = irfs.effective_area_per_energy(g, info, B["true"])
        hdus.append(create_aeff2d_hdu(a[:, np.newaxis], B["true"], B["offset"][[0, -1]], extname="AEFF", **cards))
        if cfg["diffuse"]:
            true = B["true"][np.isfinite(B["true"])]
            if "2d" in cfg["dims"]:
                a = irfs.effective_area_per_energy_and_fov(g, info, true, B["offset"])
                hdus.append(create_aeff2d_hdu(a, true, B["offset"], extname="AEFF_2D", point_like=False, **cards))
            if "polar" in cfg["dims"]:
                a = irfs.effective_area_3d_polar(g, info, true, B["offset"], B["pa"])
                hdus.append(create_aeff2d_hdu(a[..., 0], true, B["offset"], extname="AEFF_POLAR", **cards))
            if "lonlat" in cfg["dims"]:
                a = irfs.effective_area_3d_lonlat(g, info, true, B["lon"], B["lon"], subpixels=4)
                hdus.append(create_aeff2d_hdu(a[..., 1], true, B["lon"], extname="AEFF_LONLAT", **cards))
        return {"hdus": hdus}

    @add("edisp", sel)
    def _(x):
        g = selected(x, "gamma", "gh", "theta")
        d = irfs.energy_dispersion(g, B["true"], B["offset"], B["migra"])
        h = [create_energy_dispersion_hdu(d, B["true"], B["migra"], B["offset"], extname="EDISP")]
        reco = B["reco"][np.isfinite(B["reco"]) & (B["reco"] > 0)]
        true = B["true"][np.isfinite(B["true"]) & (B["true"] > 0)]
        d = irfs.energy_dispersion(g, true, B["offset"], B["migra"])
        m = energy_dispersion_to_migration(d, true, B["migra"], true, reco)
        h.append(fits.ImageHDU(np.ascontiguousarray(m), name="MIGRATION"))
        m = energy_migration_matrix(g, true, reco, B["offset"])
        h.append(fits.ImageHDU(np.ascontiguousarray(m), name="MIGRATION2"))
        return {"hdus": h}

    @add("psf", sel)
    def _(x):
        g = selected(x, "gamma", "gh")
        return {"hdus": [create_psf_table_hdu(irfs.psf_table(g, B["true"], B["source"], B["offset"]), B["true"], B["source"], B["offset"], **cards)]}

    @add("bkg", [a + b for a in ("events_", "select_") for b in ("proton", "electron")])
    def _(x):
        b = table.vstack([selected(x, "proton", "gh"), selected(x, "electron", "gh")], metadata_conflicts="silent")
        h = [create_background_2d_hdu(irfs.background_2d(b, B["reco"][1:-1] if cfg["overflow"] else B["reco"], B["offset"], T_OBS),
                                      B["reco"][1:-1] if cfg["overflow"] else B["reco"], B["offset"])]
        r = B["reco"][1:-1] if cfg["overflow"] else B["reco"]
        h.append(create_background_3d_hdu(irfs.background_3d_lonlat(b, r, B["lon"], B["lon"], T_OBS), r, B["lon"], B["lon"], extname="BKG3D", **cards))
        return {"hdus": h}

    @add("radmax", ["theta_cuts", "optimize"])
    def _(x):
        t = x["optimize"].get("theta", x["theta_cuts"]["cuts"])
        return {"hdus": [create_rad_max_hdu(u.Quantity(t["cut"])[:, np.newaxis], B["reco"], B["offset"][[0, -1]], **cards)]}

    @add("benchmarks", sel)
    def _(x):
        g = selected(x, "gamma", "gh")
        return {"resolution": angular_resolution(g, B["reco"], energy_type="reco"),
                "bias": energy_bias_resolution(selected(x, "gamma", "gh", "theta"), B["true"], energy_type="true")}

    @add("interpolated", ["aeff", "radmax"])
    def _(x):
        a = x["aeff"]["hdus"][0].data["EFFAREA"][0].T * u.m**2
        r = x["radmax"]["hdus"][0].data["RAD_MAX"][0].T * u.deg
        pts = np.array([[20.0], [40.0], [60.0]])
        e = EffectiveAreaEstimator(pts, u.Quantity([a, a * 0.8, a * 0.5]), min_effective_area=1 * u.m**2)
        q = RadMaxEstimator(pts, u.Quantity([r, r * 1.1, r * 1.2]).to_value(u.deg))
        return {"hdus": [create_aeff2d_hdu(u.Quantity(e(np.array([[33.0]]))).reshape(a.shape), B["true"], B["offset"][[0, -1]], extname="AEFF_INT"),
                         create_rad_max_hdu(np.asarray(q(np.array([[33.0]]))).reshape(r.shape) * u.deg, B["reco"], B["offset"][[0, -1]], extname="RAD_INT")]}

    return out


def product(x):
    """The final file."""
    hdus = [fits.PrimaryHDU()]
    for k in ("aeff", "edisp", "psf", "bkg", "radmax", "interpolated"):
        hdus += x[k]["hdus"]
    for k, n in (("sensitivity", "sensitivity"), ("sensitivity", "background"), ("sensitivity", "signal"), ("theta_cuts", "cuts"),
                 ("optimize", "gh"), ("optimize", "sensitivity"), ("optimize", "theta"), ("optimize", "mult"),
                 ("benchmarks", "resolution"), ("benchmarks", "bias")):
        if n in x[k]:
            h = fits.BinTableHDU(x[k][n], name=f"{k}_{n}")
            hdus.append(h)
    return hdus


# creation time, and what astropy computes from the content
TIME_CARDS = ("DATE", "CHECKSUM", "DATASUM")


def canon_hdus(hdus):
    out = {}
    for h in hdus[1:]:
        # the tables are written by astropy, the others come from pyirf: there every card but the time of creation counts
        pyirf = "HDUCLASS" in h.header
        head = {k: str(v) for k, v in h.header.items() if k not in TIME_CARDS and
                (pyirf or k.startswith(("HDU", "CREF", "FOVALIGN", "TELESCOP", "OBS_ID", "INSTRUME", "CREATOR")))}
        c = {"header": head}
        if isinstance(h, fits.BinTableHDU):
            for col in h.columns:
                c[col.name] = [str(u.Unit(col.unit or "")), snap.canon(np.array(h.data[col.name]))]
        else:
            c["image"] = ["", snap.canon(np.array(h.data))]
        out[h.name] = c
    return out


def diff_products(a, b):
    if set(a) != set(b):
        return f"HDUs {sorted(set(a) ^ set(b))}"
    for n in a:
        if set(a[n]) != set(b[n]):
            return f"{n}: columns {sorted(set(a[n]) ^ set(b[n]))}"
        for k in a[n]:
            if k == "header":
                if a[n][k] != b[n][k]:
                    return f"{n}: header {set(a[n][k].items()) ^ set(b[n][k].items())}"
            elif a[n][k][0] != b[n][k][0]:
                return f"{n}.{k}: unit {a[n][k][0]} != {b[n][k][0]}"
            else:
                x, y = a[n][k][1], b[n][k][1]
                tol = 1e-9 if np.asarray(x["v"]).dtype.itemsize != 4 else 1e-5
                d = snap.diff(x, y, rtol=tol, atol_scale=1e-9)
                if d:
                    return f"{n}.{k}: {d}"
    return None


# ------------------------------------------------------------------ storage
def store(cfg, out, path):
    """One directory per stage, published by rename."""
    tmp = path + ".tmp"
    os.makedirs(tmp, exist_ok=True)
    for k, v in out.items():
        f = os.path.join(tmp, k)
        if isinstance(v, SimulatedEventsInfo):
            with open(f + ".json", "w") as o:
                json.dump(info_dict(v), o)
            continue
        if isinstance(v, list):
            fits.HDUList([fits.PrimaryHDU(), *v]).writeto(f + ".hdus", overwrite=True)
            continue
        if cfg.get("named"):
            # every table in an HDU of its own name
            v = v.copy(copy_data=False)
            v.meta["EXTNAME"] = k.upper()
        if cfg["format"] == "ecsv":
            v.write(f + ".ecsv", overwrite=True)
        else:
            v.write(f + ".fits", overwrite=True)
    os.rename(tmp, path)


def load(path):
    out = {}
    for n in sorted(os.listdir(path)):
        f = os.path.join(path, n)
        k, ext = os.path.splitext(n)
        if ext == ".json":
            with open(f) as o:
                out[k] = info_of(json.load(o))
        elif ext == ".hdus":
            with fits.open(f, memmap=False) as h:
                for x in h:
                    x.data
                out[k] = list(h[1:])
        elif ext == ".ecsv":
            out[k] = QTable.read(f)
        else:
            out[k] = QTable.read(f)
    return out


# ------------------------------------------------------------------ plan
def plan(r, tier):
    cfgs = [config(r) for _ in range(r.choice([1, 2, 2]))]
    if len(cfgs) == 2 and r.random() < 0.5:
        # the same analysis with one setting changed
        c = {**cfgs[0]}
        k = r.choice(["seed", "opt", "bpd", "alpha", "migra", "wide", "spectra", "overflow", "diffuse", "format"])
        c[k] = cfgs[1][k]
        cfgs[1] = c
    sessions = []
    pool = ops.pool(r, n=1, small=True)
    for _ in range(r.choice([1, 2, 3])):
        att = []
        for _ in range(r.choice([3, 8, 15])):
            a = {"analysis": r.randrange(len(cfgs)), "pick": r.randrange(8), "at": None, "how": None, "faults": [], "space": None, "between": []}
            k = r.random()
            if k < 0.35:
                a["at"] = round(r.random(), 4)
                a["how"] = r.choice(["SimCrash", "KeyboardInterrupt", "MemoryError", "SystemExit"])
            elif k < 0.5:
                a["faults"] = [{"op": int(10 ** r.uniform(0, 1.5)) - 1, "k": "eio"}]
            elif k < 0.6:
                a["space"] = int(10 ** r.uniform(2, 5))
            if r.random() < 0.08:
                a["between"] = [ops.draw(r, pool)]
            att.append(a)
        sessions.append({"attempts": att, "memory": r.choice(["", "own", "keep", "keep"])})
    return {"configs": cfgs, "sessions": sessions, "last_memory": r.choice(["", "own", "keep", "keep"])}


# ------------------------------------------------------------------ run
def reference(cfg, raw):
    """Everything in one go, in memory, in a process which never did anything else."""
    x, steps = {}, {}
    todo = stages(cfg, raw)
    sim = Sim(step_cap=20_000_000)

    def body():
        for name, needs, f in todo:
            n = task.steps
            x[name] = f(x)
            steps[name] = task.steps - n

    task = sim.spawn(body)
    sim.run()
    if task.exc is not None:
        raise task.exc
    b = io.BytesIO()
    fits.HDUList(product(x)).writeto(b)
    b.seek(0)
    with fits.open(b) as h:
        return canon_hdus(h), steps


def session(plan, s, raws, steps, root, last):
    """One process: attempts at stages until it is killed.  Runs in a fork."""
    warnings.simplefilter("ignore")
    log = {"faults": [], "done": [], "shape": [], "steps": 0, "errors": []}

    class C:
        def fault(self, k, n=1):
            log["faults"].append(k)

        def shape(self, *w):
            log["shape"].append(w)

    disk = Disk(os.path.join(root, "store"), C())
    jobs = [stages(c, raw) for c, raw in zip(plan["configs"], raws)]
    memory = [{} for _ in jobs]
    world = ops.World(root)

    def path(a, name):
        return os.path.join(root, "store", str(a), name)

    def ready(a):
        return [(n, needs, f) for n, needs, f in jobs[a] if not os.path.isdir(path(a, n)) and all(os.path.isdir(path(a, k)) for k in needs)]

    attempts = list(s["attempts"]) if s else []
    keep = s["memory"] if s else plan["last_memory"]
    if last:
        attempts += [{"analysis": a, "pick": 0, "at": None, "how": None, "faults": [], "space": None, "between": []}
                     for a in range(len(jobs)) for _ in jobs[a]]
    for t in attempts:
        for o in t["between"]:
            c = ops.prepare(o, world)
            ops.outcome(c)
            log["faults"].append("other_computation")
        a = t["analysis"]
        todo = ready(a)
        if not todo:
            continue
        name, needs, f = todo[t["pick"] % len(todo)]
        cfg = plan["configs"][a]
        sim = Sim(step_cap=20_000_000)

        def body():
            with disk:
                disk.reset(t["faults"])
                x = {}
                for k in needs:
                    if k in memory[a]:
                        # this process still has it
                        x[k] = memory[a][k]
                    else:
                        x[k] = load(path(a, k))
                        if keep == "keep":
                            memory[a][k] = x[k]
                out = f(x)
                disk.space = t["space"]
                if keep:
                    memory[a][name] = out
                store(cfg, out, path(a, name))

        task = sim.spawn(body)
        if t["at"] is not None:
            sim.interrupt(task, 1 + int(t["at"] * steps[a][name]), t["how"])
        sim.run()
        log["steps"] += sim.steps
        log["shape"].append((a, name, sim.signature()))
        if sim.interrupts_fired:
            log["faults"].append("stage_" + sim.interrupts_fired[0][0])
        if task.exc is None:
            log["done"].append((a, name))
        else:
            import shutil

            e = type(task.exc).__name__
            log["shape"].append((a, name, e))
            expected = sim.interrupts_fired or isinstance(task.exc, OSError) and (t["faults"] or t["space"] is not None)
            if not expected:
                log["errors"].append(f"analysis {a}, stage {name}: {e}: {str(task.exc)[:200]}")
                return log
            memory[a].pop(name, None)
            if e == "SimCrash":
                # the process is gone
                return log
            shutil.rmtree(path(a, name) + ".tmp", ignore_errors=True)
            task.exc = None
    return log


def run(plan, ctx):
    warnings.simplefilter("ignore")
    root = ctx.scratch
    raws, refs = [], []
    for a, cfg in enumerate(plan["configs"]):
        os.makedirs(os.path.join(root, "store", str(a)))
        raw = {}
        for p, b in raw_files(cfg).items():
            raw[p] = os.path.join(root, f"{p}{a}.fits")
            with open(raw[p], "wb") as f:
                f.write(b)
        raws.append(raw)
        kind, val = in_child(lambda: reference(cfg, raw))
        if kind != "ok":
            # the analysis itself raises for this sample: nothing to compare
            ctx.probe("reference raises")
            ctx.note("reference", str(val).strip().splitlines()[-1][:200])
            if "HarnessError" in str(val) or "MemoryError" in str(val):
                raise OSError(val)
            ctx.violate("straight_run_fails", str(val).strip().splitlines()[-1][:300])
            return
        refs.append(val)
    steps = [s for _, s in refs]
    for i, s in enumerate([*plan["sessions"], None]):
        kind, log = in_child(lambda: session(plan, s, raws, steps, root, s is None))
        if kind != "ok":
            ctx.violate("session_fails", str(log).strip().splitlines()[-1][:300])
            return
        for k in log["faults"]:
            ctx.fault(k)
        ctx.steps += log["steps"]
        ctx.shape(log["shape"])
        ctx.note(i, log["done"], log["faults"], log["shape"])
        ctx.units += len(log["done"])
        for a, n in log["done"]:
            ctx.probe("stage " + n.split("_")[0])
        if log["errors"]:
            ctx.violate("stage_fails", f"session {i}: {log['errors'][0]}")
            return
        if s is not None:
            ctx.fault("process_restarted")
    for a, cfg in enumerate(plan["configs"]):
        def final():
            x = {n: load(os.path.join(root, "store", str(a), n)) for n, _, _ in stages(cfg, raws[a])}
            b = io.BytesIO()
            fits.HDUList(product(x)).writeto(b)
            b.seek(0)
            with fits.open(b) as h:
                return canon_hdus(h)

        kind, val = in_child(final)
        if kind != "ok":
            ctx.violate("final_product_fails", str(val).strip().splitlines()[-1][:300])
            return
        d = diff_products(val, refs[a][0])
        if d:
            ctx.violate("product_differs", f"analysis {a}: {d}")
            return
        ctx.probe("products compared")


def describe(plan):
    return {"configs": [{k: c[k] for k in ("opt", "format", "diffuse", "dims")} for c in plan["configs"]],
            "sessions": [[(t["analysis"], t["at"], t["how"], t["faults"], t["space"]) for t in s["attempts"]][:6] for s in plan["sessions"]]}
