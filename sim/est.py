"""Interpolation estimators: JSON specs, construction, targets, physical invariants."""
import numpy as np
import astropy.units as u

from . import gen

PARAM = ("aeff", "radmax", "params")
PARAM_INTERP = ["GridDataInterpolator", "GridDataInterpolator", "ParametrizedNearestNeighborSearcher"]
PARAM_EXTRAP = [None, "ParametrizedNearestSimplexExtrapolator", "ParametrizedNearestSimplexExtrapolator",
                "ParametrizedVisibleEdgesExtrapolator", "ParametrizedVisibleEdgesExtrapolator",
                "ParametrizedNearestNeighborSearcher"]
PDF_INTERP = ["QuantileInterpolator", "QuantileInterpolator", "MomentMorphInterpolator", "MomentMorphInterpolator",
              "DiscretePDFNearestNeighborSearcher"]
PDF_EXTRAP = [None, "MomentMorphNearestSimplexExtrapolator", "MomentMorphNearestSimplexExtrapolator",
              "DiscretePDFNearestNeighborSearcher"]


def spec(r, kind=None, generic=False, dim=None):
    kind = kind or r.choice(["aeff", "aeff", "edisp", "edisp", "psf", "psf", "radmax", "radmax", "radmax", "params", "pdf"])
    param = kind in PARAM
    s = {
        "kind": kind, "grid": gen.grid_spec(r, dim=dim, generic=generic),
        "shape": [r.randint(1, 3), r.randint(1, 2)], "nb": r.choice([5, 8, 20]), "bins": r.choice(["uniform", "log"]),
        "interp": r.choice(PARAM_INTERP if param else PDF_INTERP), "ikw": {},
        "extrap": r.choice(PARAM_EXTRAP if param else PDF_EXTRAP), "ekw": {},
        "seed": r.randrange(1 << 30), "axis": r.choice(["default", "default", "other"]),
        "dtype": r.choice(["f8", "f8", "f4", ">f8"]), "order": r.choice("CF"),
        "fill": r.choice([None, "infer", 0.7]), "fill_prob": r.choice([0.0, 0.2, 0.5]),
        "min_aeff": r.choice([None, 1.0, 50.0]), "unit": r.choice(["m2", "m2", "cm2", "km2"]),
        "zero": r.choice([0.0, 0.1, 0.3]), "none_kwargs": r.random() < 0.4,
        "eunit": r.choice(["deg", "deg", "rad", "arcmin"]), "punit": r.choice(["sr-1", "sr-1", "deg-2"]),
    }
    if r.random() < 0.15:
        # any further dimensions are allowed, also none
        s["shape"] = r.choice([[], [], [1], [3], [2, 1, 2]])
    if s["grid"]["dim"] == 3:
        s["extrap"] = r.choice([None, "ParametrizedNearestNeighborSearcher" if param else "DiscretePDFNearestNeighborSearcher"])
        s["fill"] = None
        if "Moment" in s["interp"]:
            s["interp"] = "QuantileInterpolator"
    for which, kw in (("interp", "ikw"), ("extrap", "ekw")):
        name = s[which]
        if name and "Nearest" in name and "Searcher" in name and r.random() < 0.5:
            s[kw]["norm_ord"] = r.choice([1, 2, 3])
        if name == "QuantileInterpolator":
            s[kw]["quantile_resolution"] = r.choice([1e-2, 5e-3, 1e-3]) if kind != "psf" else 1e-2
        if name == "ParametrizedVisibleEdgesExtrapolator" and r.random() < 0.5:
            s[kw]["m"] = r.choice([1, 2, 3])
        if name == "GridDataInterpolator" and r.random() < 0.3:
            s[kw]["method"] = r.choice(["linear", "nearest"])
        if name == "GridDataInterpolator" and r.random() < 0.1:
            s[kw]["rescale"] = True
    if kind == "psf" and s["nb"] == 5 and s["interp"] == "QuantileInterpolator":
        s["nb"] = 8
    return s


def edges(s):
    if s["kind"] == "psf":
        lo, hi = 0.0, 1.0
        e = np.linspace(lo, hi, s["nb"] + 1)
        return u.Quantity(e, u.deg).to(s.get("eunit", "deg"))
    return np.linspace(0.2, 3.0, s["nb"] + 1) if s["bins"] == "uniform" else np.geomspace(0.2, 5, s["nb"] + 1)


def widths(s):
    e = edges(s)
    if s["kind"] == "psf":
        c = 2 * np.pi * (1 - np.cos(e.to_value(u.rad)))
        return np.diff(c)
    return np.diff(e)


def templates(s):
    """(grid points, templates) in the order of the grid spec."""
    p = gen.grid(s["grid"])
    n = len(p)
    g = np.random.default_rng(s["seed"])
    if not s["grid"]["sorted"]:
        # the same templates belong to the same points, whatever the order
        pass
    ref = dict(s["grid"], sorted=True)
    base = gen.grid(ref).reshape(n, -1)
    order = [int(np.argmin(np.abs(base - x).sum(axis=1))) for x in p.reshape(n, -1)]
    if s["kind"] not in PARAM:
        t = gen.pdf_templates(g, n, tuple(s["shape"]), s["nb"], zero_prob=s["zero"], width=widths(s))
    elif s["kind"] == "aeff":
        t = 10 ** g.uniform(1, 6, (n, *s["shape"]))
        t[g.random(t.shape) < s["zero"]] = 0
    else:
        t = g.uniform(0.05, 0.6, (n, *s["shape"]))
        t[g.random(t.shape) < s["fill_prob"]] = 0.7
    t = t[order]
    dt = np.dtype(s["dtype"])
    if dt.itemsize == 4 and s["kind"] not in PARAM:
        dt = np.dtype("f8")
    t = np.array(t, dtype=dt, order=s["order"])
    return p, t


def build(s, points=None, temp=None, keep=None, call=True):
    """The estimator; ``keep`` collects the objects handed to pyirf."""
    import pyirf.interpolation as I

    if points is None:
        points, temp = templates(s)
    kw = {}
    e = edges(s)
    if s["kind"] == "aeff":
        q = u.Quantity(temp, u.m**2)
        if s["unit"] != "m2":
            q = q.to(s["unit"])
        args = [points, q]
        cls = I.EffectiveAreaEstimator
        if s["min_aeff"] is not None:
            kw["min_effective_area"] = u.Quantity(s["min_aeff"], u.m**2)
    elif s["kind"] == "radmax":
        args = [points, temp]
        cls = I.RadMaxEstimator
        kw["fill_value"] = s["fill"]
    elif s["kind"] == "edisp":
        # (n, energy, migra, fov)
        if s["axis"] == "other" or not s["shape"]:
            t, kw["axis"] = temp, -1
        else:
            t = np.swapaxes(temp, -1, -2)
        args = [points, e, t]
        cls = I.EnergyDispersionEstimator
    elif s["kind"] == "params":
        args = [points, temp]
        cls = I.ParametrizedComponentEstimator
    elif s["kind"] == "pdf":
        args = [points, e, temp]
        cls = I.DiscretePDFComponentEstimator
    else:
        t = u.Quantity(temp, 1 / u.sr)
        if s.get("punit", "sr-1") != "sr-1":
            t = t.to(u.deg**-2)
        if s["axis"] == "other":
            t, kw["axis"] = np.swapaxes(t, -1, 1), 1
        args = [points, e, t]
        cls = I.PSFTableEstimator
    for which, k, key in (("interp", "interpolator", "ikw"), ("extrap", "extrapolator", "ekw")):
        if s[which] is not None:
            kw[k + "_cls"] = getattr(I, s[which])
            if s[key] or not s["none_kwargs"]:
                kw[k + "_kwargs"] = dict(s[key])
    if keep is not None:
        keep.append((args, kw))
    return cls(*args, **kw) if call else None


def rows(s, result):
    """Result with the PDF axis last, without the leading axis; None if it has an unexpected shape."""
    unit = {"psf": 1 / u.sr, "aeff": u.m**2}.get(s["kind"])
    r = np.asarray(u.Quantity(result).to_value(unit) if unit is not None else result)
    want = tuple(s["shape"])
    if s["kind"] in PARAM:
        return r.reshape(want) if r.size == int(np.prod(want)) else None
    n = len(want) + 1
    if r.ndim == n + 1 and r.shape[0] == 1:
        r = r[0]
    if r.ndim != n:
        return None
    if s["kind"] == "edisp" and s["axis"] == "default" and n > 1:
        r = np.swapaxes(r, -1, -2)
    if s["kind"] == "psf" and s["axis"] == "other":
        r = np.swapaxes(r, -1, 0)
    return r if r.shape == (*want, s["nb"]) else None


def inside(s, points, target):
    """True / False / None (on the border, where rounding decides)."""
    p = np.asarray(points, float).reshape(len(points), -1)
    t = np.asarray(target, float)
    if p.shape[1] == 1:
        return bool(p.min() <= t[0] <= p.max())
    if any(np.array_equal(x, t) for x in p):
        return True
    from scipy.spatial import ConvexHull

    eq = ConvexHull(p).equations
    d = (eq[:, :-1] @ t + eq[:, -1]).max()
    if abs(d) < 1e-6:
        return None
    return bool(d < 0)


def node(points, target):
    p = np.asarray(points, float).reshape(len(points), -1)
    for i, x in enumerate(p):
        if np.array_equal(x, np.asarray(target, float)):
            return i
    return None


def physical(s, points, temp, target, result):
    """None or (class, description) of what is unphysical about an answer."""
    r = rows(s, result)
    if r is None:
        return "unphysical", f"answer of shape {np.shape(result)} for templates of shape {tuple(s['shape'])}"
    i = node(points, target)
    if s["kind"] == "aeff":
        m = 1.0 if s["min_aeff"] is None else s["min_aeff"]
        bad = ~((r == 0) | (r >= m * (1 - 1e-9)))
        if bad.any():
            return "unphysical", f"effective area {r[bad][0]!r} below the minimum {m}"
        if i is not None:
            t = np.asarray(temp[i], float)
            exp = np.where(t < m, np.nan, t)
            tol = 1e-6 if temp.dtype.itemsize == 8 else 1e-3
            bad = ~np.where(np.isnan(exp), (r == 0) | (np.abs(r - m) <= 1e-6 * m), np.abs(r - exp) <= tol * np.abs(exp))
            # values at the threshold may go either way
            bad &= ~(np.abs(t - m) <= 1e-3 * m)
            if bad.any():
                return "template_not_reproduced", f"{r[bad][0]!r} instead of {t[bad][0]!r} at its own grid point"
        return None
    if s["kind"] == "params":
        t = np.asarray(temp, float)
        if i is not None and not (np.abs(r - t[i]) <= 1e-6).all():
            return "template_not_reproduced", f"{r!r} instead of {t[i]!r} at its own grid point"
        return None
    if s["kind"] == "radmax":
        t = np.asarray(temp, float)
        fill = None if s["fill"] is None else (t.max() if s["fill"] == "infer" else s["fill"])
        tol = 1e-6 if temp.dtype.itemsize == 4 else 1e-9
        if not (r >= 0).all():
            return "unphysical", f"rad max {r.min()!r}"
        if fill is not None and (r > fill * (1 + tol)).any():
            return "unphysical", f"rad max {r.max()!r} above the fill value {fill!r}"
        if i is not None:
            near = "Nearest" in s["interp"]
            # in a segment with fill values these win; otherwise the template itself
            has_fill = fill is not None and not near
            exact = np.abs(r - t[i]) <= 1e-6
            if has_fill:
                filled = (t >= fill * (1 - 1e-6)).any(axis=0)
                exact |= filled
                exact |= t[i] >= fill * (1 - 1e-6)
            if not exact.all():
                return "template_not_reproduced", f"{r[~exact][0]!r} instead of {t[i][~exact][0]!r} at its own grid point"
            if has_fill:
                bad = (t[i] >= fill * (1 - 1e-9)) & ~(np.abs(r - fill) <= tol * fill)
                # 2D: one fill value among three nodes gives the smallest of the others
                if s["grid"]["dim"] == 1 and bad.any():
                    return "fill_value_lost", f"{r[bad][0]!r} at a grid point with the fill value {fill!r}"
        return None
    w = widths(s)
    if not (r >= -1e-12 * max(1.0, np.abs(r).max() if r.size else 1)).all():
        return "unphysical", f"negative density {np.nanmin(r)!r}"
    if not np.isfinite(r).all():
        return "unphysical", "not finite"
    norm = (r * w).sum(axis=-1)
    zero = (r == 0).all(axis=-1)
    bad = ~(zero | (np.abs(norm - 1) < 1e-6))
    if bad.any():
        return "unphysical", f"integral {norm[bad][0]!r}"
    if i is not None:
        t = np.asarray(temp[i], float)
        tz = (t == 0).all(axis=-1)
        if "Quantile" in s["interp"]:
            # the method's resolution: one bin
            if s["nb"] < 20:
                return None
            c = np.arange(t.shape[-1])
            mt, mr = (t * w * c).sum(-1), (r * w * c).sum(-1)
            bad = ~zero & ~tz & (np.abs(mt - mr) > 1.5)
        else:
            # empty neighbours make a moment-morphed row empty
            bad = (np.abs(r - t) * w).sum(-1) > 1e-6
            if "Moment" in s["interp"]:
                bad &= ~zero
                if (zero & ~tz).any() and s["zero"] == 0:
                    return "template_not_reproduced", "empty row for a template that is not"
        if bad.any():
            k = tuple(np.argwhere(bad)[0])
            return "template_not_reproduced", f"{r[k]!r} instead of {t[k]!r} at its own grid point"
    return None
