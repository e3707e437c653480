"""Seeded generators.  A *spec* is a small JSON object; building it is a pure function."""
import numpy as np
import astropy.units as u
from astropy.table import QTable, Table

from pyirf.simulations import SimulatedEventsInfo


def rng_of(spec):
    return np.random.default_rng(spec["seed"])


# -- binnings ----------------------------------------------------------------------
def energy_bins_spec(r, max_bins=5, overflow=False):
    kind = r.choice(["log", "log", "irregular", "narrow", "single", "nearlog"])
    n = 1 if kind == "single" else r.randint(2, max_bins)
    if r.random() < 0.04:
        n = r.randint(6, 30)
    return {
        "kind": kind, "n": n, "seed": r.randrange(1 << 30),
        "unit": r.choice(["TeV", "TeV", "TeV", "GeV"]),
        "overflow": bool(overflow and r.random() < 0.25),
    }


def energy_bins(spec):
    """Edges in TeV (floats) and as a Quantity in the requested unit."""
    g = np.random.default_rng(spec["seed"])
    n = spec["n"]
    if spec["kind"] == "log":
        e = np.geomspace(0.02, 50, n + 1)
    elif spec["kind"] == "nearlog":
        e = np.exp(nearly(np.log(np.geomspace(0.02, 50, n + 1)), g))
    elif spec["kind"] == "narrow":
        lo = 10 ** g.uniform(-1, 0)
        e = np.geomspace(lo, lo * 3, n + 1)
    elif spec["kind"] == "single":
        e = np.array([0.05, 20.0])
    else:
        e = np.sort(10 ** g.uniform(-2, 2, n + 1))
        e = np.unique(np.round(e, 6))
        while len(e) < 2:
            e = np.append(e, e[-1] * 2)
    if spec.get("overflow"):
        e = np.concatenate([[0.0], e, [np.inf]])
    q = u.Quantity(e, u.TeV)
    if spec["unit"] != "TeV":
        q = q.to(spec["unit"])
    return q


def nearly(e, g):
    """Edges with almost equal widths."""
    e = np.array(e, dtype=float)
    n = len(e) - 1
    if n > 1:
        k = slice(1, -1) if g.random() < 0.5 else g.integers(1, n)
        e[k] += np.ptp(e) / n * 10 ** g.uniform(-5, -1.5) * g.uniform(-1, 1, e.shape)[k]
    return e


def angle_bins_spec(r, lo=0.0, hi=5.0, max_bins=4, sym=False, uniform=None):
    return {
        "lo": lo, "hi": hi, "n": r.randint(1, max_bins) if r.random() < 0.97 else r.randint(5, 20), "seed": r.randrange(1 << 30),
        "uniform": bool(r.random() < 0.6) if uniform is None else uniform,
        "unit": r.choice(["deg", "deg", "deg", "rad"]), "sym": sym, "near": r.random() < 0.2,
    }


def angle_bins(spec):
    g = np.random.default_rng(spec["seed"])
    lo, hi, n = spec["lo"], spec["hi"], spec["n"]
    if spec["sym"]:
        lo = -hi
    if spec["uniform"]:
        e = np.linspace(lo, hi, n + 1)
    elif spec.get("near"):
        e = nearly(np.linspace(lo, hi, n + 1), g)
    else:
        e = np.concatenate([[lo], np.sort(g.uniform(lo + 0.02 * (hi - lo), hi - 0.02 * (hi - lo), n - 1)), [hi]])
        e = np.round(e, 6)
    q = u.Quantity(e, u.deg)
    return q if spec["unit"] == "deg" else q.to(spec["unit"])


def migra_bins_spec(r, n, log=0.5):
    d = {"n": n, "log": r.random() < log, "seed": r.randrange(1 << 30)}
    if r.random() < 0.4:
        d["lo"], d["hi"] = r.choice([0.1, 0.2, 0.5, 1e-3]) if d["log"] else r.choice([0.0, 0.0, 0.1, 0.5, 1.0]), r.choice([2.0, 3.0, 5.0, 10.0])
    return d


def migra_bins(spec):
    g = np.random.default_rng(spec["seed"])
    n = spec["n"]
    lo, hi = spec.get("lo", 0.2), spec.get("hi", 5.0)
    if spec.get("log", True):
        return np.geomspace(lo, hi, n + 1)
    return np.concatenate([[lo], np.sort(g.uniform(lo + 0.01 * (hi - lo), hi - 0.02 * (hi - lo), n - 1)), [hi]])


# -- event lists --------------------------------------------------------------------
PTYPES = ["gamma", "proton", "electron"]
# names that contain each other, isotopes, charges
OTHER_PTYPES = [["gamma", "gamma_diffuse", "proton"], ["He", "H", "iron"], ["p", "pi0", "e-"], ["electron", "gamma", "e"]]


def events_spec(r, n=None, weight=None, max_n=60):
    if n is None:
        n = r.choice([0, 1, 2, 3, 7, 15, 30, max_n, max_n])
    return {
        "seed": r.randrange(1 << 30), "n": n,
        "eunit": r.choice(["TeV", "TeV", "TeV", "GeV"]),
        "aunit": r.choice(["deg", "deg", "deg", "rad"]),
        "dtype": r.choice(["f8", "f8", "f8", "f4", ">f8"]),
        "weight": weight or r.choice(["none", "float", "float", "quantity", "int", "some_zero"]),
        "ptype": r.choice(["none", "none", "mixed", "single"]),
        "edges": bool(r.random() < 0.3),
        "nan": bool(r.random() < 0.15),
        "failed": bool(r.random() < 0.08),
        "order": r.choice(["random", "random", "sorted", "reversed"]),
        "meta": bool(r.random() < 0.3),
        "geom": r.choice(["wide", "wide", "wide", "near", "tracking", "wrap"]),
        "names": r.choice(OTHER_PTYPES) if r.random() < 0.4 else PTYPES,
        "pa": r.choice(["turn", "turn", "sym"]),
        "grouped": r.choice([None] * 14 + ["group", "index"]),
    }


LARGE = [100, 128, 200, 250, 256, 300, 500, 512, 600, 1000, 1024, 1500, 2000, 2048, 3000, 4000, 4096, 5000]
HUGE = [8192, 10000, 20000, 32768, 50000, 65536, 100000]


def large_n(r):
    """Lists longer than thresholds for a special treatment of long or short lists, and remainders of chunks."""
    return r.choice(HUGE if r.random() < 0.2 else LARGE) + r.choice([-1, 0, 1, 1, 7])


def centre(spec):
    """Position near which the events of a spec with a compact geometry lie, in degrees."""
    g = np.random.default_rng(spec["seed"] + 1)
    if spec.get("geom") == "wrap":
        return float(g.choice([0.0, 360.0, 1e-3])), float(g.choice([g.uniform(20, 85), 89.0]))
    return round(g.uniform(1, 359), 3), round(g.uniform(-60, 85), 3)


def compact_positions(spec, n):
    """True, reconstructed and pointing positions close to one position, at all distances down to zero."""
    g = np.random.default_rng(spec["seed"] + 2)
    az, alt = centre(spec)

    def near(lo, hi, same=0.2):
        d = 10 ** g.uniform(lo, hi, n) * g.choice([-1, 1], n)
        d[g.random(n) < same] = 0
        return d
    if spec["geom"] == "near":
        paz, palt = np.full(n, az), np.full(n, alt)
        if g.random() < 0.5:
            paz, palt = paz + near(-8, -1), palt + near(-8, -1)
        return az + near(-8, 0), alt + near(-8, 0), az + near(-8, 0), alt + near(-8, 0), paz, palt
    if spec["geom"] == "tracking":
        # the telescope follows a source with small steps
        step = 10 ** g.uniform(-6, -1)
        paz, palt = az + step * np.arange(n) * g.uniform(-1, 1), alt + step * np.arange(n) * g.uniform(-1, 1)
        off = g.uniform(-3, 3, 2)
        taz, talt = np.full(n, az + off[0]), np.full(n, alt + off[1])
        return taz, talt, taz + g.normal(0, 0.2, n), talt + g.normal(0, 0.2, n), paz, palt
    paz, palt = (az + g.normal(0, 0.5, n)) % 360, np.minimum(alt + g.normal(0, 0.3, n), 89.9)
    taz, talt = (az + g.normal(0, 1.5, n)) % 360, np.minimum(alt + g.normal(0, 1, n), 89.9)
    return taz, talt, (taz + g.normal(0, 0.3, n)) % 360, np.minimum(talt + g.normal(0, 0.3, n), 89.95), paz, palt


NEXT_TO = [1, 1, 1, 1 - 1e-12, 1 + 1e-12]


def events(spec, edges=(), aedges=(), pedges=(), others=None):
    """An event list with every column any pyirf function needs.

    ``edges``: energies in TeV (floats) on which some events lie exactly; only used
    with TeV, where the position relative to an edge is unambiguous (single precision
    values are rounded after that, to either side of the edge).
    """
    g = rng_of(spec)
    n = spec["n"]
    exact = spec["eunit"] == "TeV" and spec["aunit"] == "deg"
    te = 10 ** g.uniform(-2.2, 2.2, n)
    if spec.get("narrow"):
        te = te ** 0.02
    re = te * np.exp(g.normal(0, 0.02 if spec.get("narrow") else 0.25, n))
    off = g.uniform(0, 6, n)
    roff = np.abs(off + g.normal(0, 0.1, n))
    pa = g.uniform(0, 360, n)
    if spec.get("pa") == "sym":
        pa = pa - 180
    lon = g.uniform(-6, 6, n)
    lat = g.uniform(-6, 6, n)
    rlon = lon + g.normal(0, 0.1, n)
    rlat = lat + g.normal(0, 0.1, n)
    theta = np.abs(g.normal(0, 0.15, n))
    big = g.random(n) < 0.05
    theta[big] = g.uniform(0.5, 3, big.sum())
    paz = np.full(n, g.uniform(0, 360))
    palt = np.full(n, g.uniform(20, 85))
    if n and g.random() < 0.5:
        paz = g.uniform(0, 360, n)
        palt = g.uniform(10, 89, n)
    taz = (paz + g.uniform(-4, 4, n)) % 360
    talt = np.clip(palt + g.uniform(-4, 4, n), -89, 89.5)
    raz = (taz + g.normal(0, 0.3, n)) % 360
    ralt = np.clip(talt + g.normal(0, 0.3, n), -89.5, 89.9)
    if spec.get("geom", "wide") != "wide":
        taz, talt, raz, ralt, paz, palt = compact_positions(spec, n)
        talt, ralt, palt = (np.clip(x, -89.9, 89.95) for x in (talt, ralt, palt))
    gh = g.normal(0.3, 0.3, n)
    mult = g.integers(2, 8, n)
    if spec["edges"] and exact and n:
        k = g.random(n) < 0.35
        if len(edges):
            fin = np.asarray([e for e in edges if np.isfinite(e) and e > 0])
            if len(fin):
                # on the edge or next to it
                te[k] = g.choice(fin, k.sum()) * g.choice(NEXT_TO, k.sum())
                re[k] = g.choice(fin, k.sum()) * g.choice(NEXT_TO, k.sum())
        if len(aedges):
            k2 = g.random(n) < 0.35
            off[k2] = g.choice(aedges, k2.sum())
            roff[k2] = g.choice(aedges, k2.sum())
        if len(pedges):
            k2 = g.random(n) < 0.35
            pa[k2] = g.choice(pedges, k2.sum())
        for name, on in (others or {}).items():
            on = np.asarray([x for x in on if np.isfinite(x)])
            k2 = g.random(n) < 0.3
            if not len(on):
                continue
            x = g.choice(on, k2.sum()) * g.choice(NEXT_TO, k2.sum())
            if name == "theta":
                theta[k2] = x
            elif name == "lon":
                lon[k2] = rlon[k2] = x
            elif name == "lat":
                lat[k2] = rlat[k2] = x
            elif name == "migra":
                # powers of two, so that the ratio is exact
                te[k2] = 2.0 ** g.integers(-4, 5, k2.sum())
                re[k2] = te[k2] * x
        dup = g.random(n) < 0.2
        gh[dup] = 0.25
        if not (others or {}).get("theta"):
            theta[dup] = 0.1
    if spec["nan"] and n:
        k = g.random(n) < 0.1
        re[k] = np.nan
        k = g.random(n) < 0.05
        theta[k] = np.nan
    if spec.get("failed") and n:
        # no reconstructed energy or direction at all
        k = g.random(n) < 0.15
        for x in (re, theta, raz, ralt, roff, rlon, rlat):
            x[k] = np.nan
    idx = np.arange(n)
    if spec["order"] == "sorted":
        idx = np.argsort(re, kind="stable")
    elif spec["order"] == "reversed":
        idx = np.argsort(re, kind="stable")[::-1]
    keep = spec.get("keep")
    if keep is not None:
        idx = idx[[i for i in keep if i < n]]
    dt = np.dtype(spec["dtype"])

    def ene(x):
        q = u.Quantity(x[idx], u.TeV).to(spec["eunit"])
        return u.Quantity(q.value.astype(dt), q.unit, copy=False)

    def ang(x):
        q = u.Quantity(x[idx], u.deg).to(spec["aunit"])
        return u.Quantity(q.value.astype(dt), q.unit, copy=False)

    t = QTable()
    t["event_id"] = np.arange(n)[idx]
    t["true_energy"] = ene(te)
    t["reco_energy"] = ene(re)
    t["true_az"] = ang(taz)
    t["true_alt"] = ang(talt)
    t["reco_az"] = ang(raz)
    t["reco_alt"] = ang(ralt)
    t["pointing_az"] = ang(paz)
    t["pointing_alt"] = ang(palt)
    t["theta"] = ang(theta)
    t["true_source_fov_offset"] = ang(off)
    t["reco_source_fov_offset"] = ang(roff)
    t["true_source_fov_position_angle"] = ang(pa)
    t["true_source_fov_lon"] = ang(lon)
    t["true_source_fov_lat"] = ang(lat)
    t["reco_source_fov_lon"] = ang(rlon)
    t["reco_source_fov_lat"] = ang(rlat)
    t["gh_score"] = gh[idx].astype(dt)
    t["multiplicity"] = mult[idx]
    w = g.uniform(0.1, 5, n)
    if spec["weight"] == "int":
        t["weight"] = np.ceil(w[idx]).astype(int)
    elif spec["weight"] == "quantity":
        t["weight"] = u.Quantity(w[idx], u.one)
    elif spec["weight"] == "some_zero":
        w[g.random(n) < 0.4] = 0
        t["weight"] = w[idx]
    elif spec["weight"] == "float":
        t["weight"] = w[idx]
    if spec["ptype"] == "single":
        t["particle_type"] = np.array(["gamma"] * len(idx), dtype="U16")
    elif spec["ptype"] == "mixed":
        t["particle_type"] = np.array(spec.get("names", PTYPES), dtype="U16")[g.integers(0, 3, n)[idx]]
    if spec["meta"]:
        t.meta["run"] = 7
        t.meta["list"] = [1, 2, 3]
    if spec.get("grouped") and len(t):
        t["obs_id"] = np.sort(g.integers(1, 4, n))[:len(t)]
    return arranged(t, spec)


def arranged(t, spec):
    """The table as the user may have grouped or indexed it by run before."""
    if "obs_id" not in t.colnames or not len(t):
        return t
    if spec.get("grouped") == "group":
        return t.group_by("obs_id")
    if spec.get("grouped") == "index" and not t.indices:
        t.add_index("obs_id")
    return t


# -- simulation info ----------------------------------------------------------------
def siminfo_spec(r, diffuse=True):
    return {
        "n": r.choice([1, 100, 12345, 10**6, 3 * 10**9]),
        "emin": r.choice([0.003, 0.01, 0.1]), "emax": r.choice([30.0, 100.0, 330.0]),
        "eunit": r.choice(["TeV", "TeV", "GeV"]),
        "impact": r.choice([300.0, 1500.0]), "iunit": r.choice(["m", "m", "km"]),
        "index": r.choice([-2.0, -2.0, -1.5, -2.7]),
        "vmin": 0.0 if not diffuse else r.choice([0.0, 0.0, 0.5]),
        "vmax": 0.0 if not diffuse else r.choice([6.0, 10.0, 10.0, 3.0]),
        "vunit": r.choice(["deg", "deg", "rad"]),
    }


def siminfo(spec):
    return SimulatedEventsInfo(
        n_showers=spec["n"],
        energy_min=u.Quantity(spec["emin"], u.TeV).to(spec["eunit"]),
        energy_max=u.Quantity(spec["emax"], u.TeV).to(spec["eunit"]),
        max_impact=u.Quantity(spec["impact"], u.m).to(spec["iunit"]),
        spectral_index=spec["index"],
        viewcone_min=u.Quantity(spec["vmin"], u.deg).to(spec["vunit"]),
        viewcone_max=u.Quantity(spec["vmax"], u.deg).to(spec["vunit"]),
    )


# -- interpolation grids --------------------------------------------------------------
def grid_spec(r, dim=None, generic=False):
    dim = dim or r.choice([1] * 10 + [2] * 5 + [3])
    if dim == 1:
        n = r.randint(2, 5)
    elif dim == 3:
        n = r.choice([4, 5, 6, 8, 8, 12])
    else:
        n = r.choice([3, 4, 4, 5, 6, 9])
    return {"dim": dim, "n": n, "seed": r.randrange(1 << 30),
            "sorted": r.random() < 0.5,
            "layout": "generic" if generic or r.random() < 0.5 else "regular",
            "flat": dim == 1 and r.random() < 0.3,
            "dtype": r.choice(["f8"] * 6 + ["i8", "f4", ">f8", "i2"])}


def grid(spec):
    p = _grid(spec)
    d = np.dtype(spec.get("dtype", "f8"))
    return (np.round(p) if d.kind == "i" else p).astype(d)


def _grid(spec):
    g = rng_of(spec)
    n = spec["n"]
    if spec["dim"] == 1:
        if spec["layout"] == "regular":
            p = np.linspace(20.0, 60.0, n)
        else:
            p = np.cumsum(g.uniform(5, 15, n))
            if spec.get("near"):
                # two templates close to each other
                i = g.integers(1, n)
                p[i] = p[i - 1] * (1 + 10 ** g.uniform(-9, -3))
        if not spec["sorted"]:
            p = p[g.permutation(n)]
        return p if spec["flat"] else p.reshape(-1, 1)
    if spec["dim"] == 3:
        if spec["layout"] == "regular" and n in (8, 12):
            p = np.array([[a, b, c] for a in (0.0, 20.0) for b in (0.0, 15.0) for c in np.linspace(0.0, 30.0, n // 4)])
        else:
            # well separated points in general position
            base = np.array([[0, 0, 1], [20, 1, 2], [2, 19, 1], [3, 1, 22], [23, 20, 3], [22, 3, 19], [1, 24, 21], [25, 23, 24],
                             [10, 9, 45], [11, 48, 8], [47, 12, 13], [44, 40, 38]], float)
            p = base[:n] + g.uniform(-1, 1, (n, 3))
        return p if spec["sorted"] else p[g.permutation(len(p))]
    if spec["layout"] == "regular":
        side = {3: None, 4: (2, 2), 5: None, 6: (2, 3), 9: (3, 3)}[n]
        if side is None:
            p = np.array([[0.0, 0], [20, 0], [0, 20], [20, 21], [40, 2]])[:n]
        else:
            p = np.array([[a, b] for a in np.linspace(0, 20, side[0]) for b in np.linspace(0, 20, side[1])])
    else:
        # well separated points in general position
        base = np.array([[0, 0], [20, 1], [2, 19], [21, 22], [40, 3], [38, 25], [1, 41], [22, 44], [45, 40]], float)
        p = base[:n] + g.uniform(-1, 1, (n, 2))
    if not spec["sorted"]:
        p = p[g.permutation(len(p))]
    return p


def targets(spec, points, r):
    """A few target points: inside, outside, on grid points and on the borders."""
    p = np.asarray(points, float)
    p = p.reshape(len(p), -1)
    dim = p.shape[1]
    out = []
    kinds = ["in", "in", "in", "node", "out", "edge", "max", "min"]
    for _ in range(r.randint(1, 4)):
        k = r.choice(kinds)
        if dim == 1:
            lo, hi = p.min(), p.max()
            x = {"in": r.uniform(lo, hi), "node": float(p[r.randrange(len(p)), 0]),
                 "out": r.choice([lo - r.uniform(0.5, 4), hi + r.uniform(0.5, 4)]),
                 "edge": r.choice([lo, hi]), "max": hi, "min": lo}[k]
            out.append([float(x)])
        else:
            if k in ("in", "edge"):
                # random convex combination of three (four) points
                i = [r.randrange(len(p)) for _ in range(dim + 1)]
                w = np.array([r.random() + 0.05 for _ in range(dim + 1)])
                w /= w.sum()
                x = (p[i] * w[:, None]).sum(axis=0)
            elif k == "out":
                c = p.mean(axis=0)
                d = p[r.randrange(len(p))] - c
                x = c + d * r.uniform(1.2, 1.6)
            else:
                x = p[r.randrange(len(p))]
            out.append([float(v) for v in x])
        if k == "in" and r.random() < 0.3:
            out.append(close_to(p, out[-1], r))
    return out


def close_to(points, target, r):
    """Almost the same target, a bit nearer to the centre of the grid."""
    p = np.asarray(points, float)
    c = p.reshape(len(p), -1).mean(axis=0)
    f = 10 ** r.uniform(-7, -2)
    return [float(t + (x - t) * f) for t, x in zip(target, c)]


def pdf_templates(g, n_points, shape, n_bins, zero_prob=0.2, width=None):
    """Normalised (sum * width == 1) histograms, some of them empty."""
    width = np.ones(n_bins) if width is None else width
    x = np.arange(n_bins)
    mu = n_bins / 2 + g.uniform(-1, 1, (n_points, *shape, 1))
    sig = g.uniform(0.8, n_bins / 4, (n_points, *shape, 1))
    h = np.exp(-0.5 * ((x - mu) / sig) ** 2) + 0.01 * g.random((n_points, *shape, n_bins))
    h = h * width
    if g.random() < 0.5:
        z = g.random((n_points, *shape)) < zero_prob
        h[z] = 0
    s = h.sum(axis=-1, keepdims=True)
    return np.divide(h, s, out=np.zeros_like(h), where=s > 0) / width
