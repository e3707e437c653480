"""C11: interpolation does not depend on the order in which the templates arrived."""
import warnings

import numpy as np
import astropy.units as u

from .. import cluster, est, gen
from .. import snapshot as snap

ID = "C11"
QUICK = {"runs": 100000, "wall": 50}
THOROUGH = {"runs": 10**7, "wall": 1500}
DROPPABLE = ["fates", "crashes", "stalls", "queries", "deliveries"]
RULE = ("a run counts as distinct and non-trivial if at least one message was delayed, lost or duplicated and the "
        "combination of estimator, arrival order and targets was not seen before")
REAL = ["pyirf.interpolation", "numpy", "scipy"]
STUB = ["workers, network and clock delivering the templates"]
ASSUMPTIONS = ["two-dimensional targets on the border of a simplex, or with two equally near templates or facets, are not compared"]


def plan(r, tier):
    s = est.spec(r, generic=True, dim=r.choice([1, 1, 1, 2, 2, 2, 2, 3]))
    s["grid"]["flat"] = False
    s["grid"]["sorted"] = True
    if s["grid"]["dim"] > 1 and "i" in s["grid"]["dtype"]:
        s["grid"]["dtype"] = "f8"  # general position
    if s["grid"]["dim"] == 1 and s["grid"]["dtype"] in ("f8", ">f8") and r.random() < 0.15:
        s["grid"]["near"] = True
    pts = gen.grid(s["grid"])
    if s["grid"]["dim"] == 2 and s["grid"]["n"] > 6 and s["kind"] == "psf":
        s["grid"]["n"] = 5
        pts = gen.grid(s["grid"])
    pool = gen.targets(s["grid"], pts, r) + gen.targets(s["grid"], pts, r)
    # far away, where the order of simplices would matter most
    c = np.asarray(pts).mean(axis=0)
    for _ in range(2):
        pool.append([float(x) for x in c + np.array([r.uniform(-45, 45) for _ in c])])
    # almost as near to one template as to another one
    for _ in range(r.choice([0, 1, 2])):
        a, b = (np.asarray(pts[r.randrange(len(pts))], float).reshape(-1) for _ in range(2))
        x = (a + b) / 2 + (b - a) * 10 ** r.uniform(-6, -2) * r.choice([-1, 1])
        pool.append([float(v) for v in x])
    out = []
    for _ in range(r.choice([1, 2, 3])):
        p = cluster.cluster_plan(r, len(pts), crash_rate=0.0)
        # spread the arrival times, so that every order occurs
        for f in p["fates"]:
            if f["k"] == "ok":
                f["d"] = round(r.uniform(0.1, 9), 3)
        if r.random() < 0.8:
            p["fates"] = [{"k": "ok", "d": round(r.uniform(0.1, 9), 3)} for _ in pts] + p["fates"]
        out.append({"cluster": p, "flat": r.random() < 0.4})
    # the interpolator itself, for those which take the templates in any order
    direct = r.random() < 0.15 and (s["interp"] in DIRECT or s["interp"] == "QuantileInterpolator" and s["grid"]["dim"] == 1)
    return {"est": s, "queries": pool, "deliveries": out, "direct": direct}


DIRECT = {"GridDataInterpolator", "ParametrizedNearestNeighborSearcher", "DiscretePDFNearestNeighborSearcher"}


def build(plan, points, temp):
    s = plan["est"]
    if not plan.get("direct"):
        return est.build(s, points, temp)
    import pyirf.interpolation as I

    cls = getattr(I, s["interp"])
    p = np.array(points, float).reshape(len(points), -1)
    if s["kind"] in est.PARAM:
        return cls(p, temp, **s["ikw"])
    e = est.edges(s)
    norm = I.PDFNormalization.AREA
    if s["kind"] == "psf":
        norm = I.PDFNormalization.CONE_SOLID_ANGLE
    elif hasattr(e, "unit"):
        e = e.value
    return cls(p, e, temp, normalization=norm, **s["ikw"])


def barycentric(p, t):
    m = np.vstack([p.T, np.ones(len(p))])
    return np.linalg.solve(m, np.append(t, 1.0))


def ambiguous(s, p, t):
    """Whether rounding or the order of the templates may decide the answer."""
    p = np.asarray(p, float).reshape(len(p), -1)
    t = np.asarray(t, float)
    d = np.sort(np.linalg.norm(p - t, axis=1))
    near = len(d) > 1 and d[1] - d[0] < 1e-6
    for o in (1, 3):
        x = np.sort(np.linalg.norm(p - t, axis=1, ord=o))
        near |= len(x) > 1 and x[1] - x[0] < 1e-6
    if p.shape[1] == 1:
        return near and ("Searcher" in s["interp"] or "Searcher" in str(s["extrap"]))
    if near:
        return True
    ins = est.inside(s, p, t)
    if ins is None:
        return True
    from scipy.spatial import ConvexHull, Delaunay

    tri = Delaunay(p)
    if ins:
        if "Searcher" in s["interp"]:
            return False
        return not any((barycentric(p[i], t) > 1e-6).all() for i in tri.simplices)
    if s["extrap"] is None or "Searcher" in s["extrap"]:
        return False
    hull = ConvexHull(p).simplices
    facets = []
    for a, b in hull:
        A, B = p[a], p[b]
        n = np.cross(B - A, t - A) / np.linalg.norm(B - A)
        if abs(n) < 1e-6:
            return True  # on the line through a facet
        k = np.dot(t - A, B - A) / np.dot(B - A, B - A)
        if min(abs(k), abs(k - 1)) < 1e-6:
            return True
        pa, pb = A - t, B - t
        cos = np.dot(pa, pb) / np.linalg.norm(pa) / np.linalg.norm(pb)
        v = None if 0 < k < 1 else (a if k < 0 else b)
        dist = abs(n) if v is None else np.linalg.norm(p[v] - t)
        facets.append((dist, cos, v))
    facets.sort(key=lambda f: f[0])
    d0, c0, v0 = facets[0]
    for d1, c1, v1 in facets[1:]:
        if d1 - d0 < 1e-6 and not (v0 is not None and v0 == v1 and abs(c0 - c1) > 1e-6):
            return True
    return False


def ask(e, q):
    return e(np.array([q], float))


def run(plan, ctx):
    warnings.simplefilter("ignore")
    s = plan["est"]
    points, temp = est.templates(s)
    n = len(points)
    base = build(plan, points, temp)
    queries = [q for q in plan["queries"] if not ambiguous(s, points, q)]
    if plan.get("direct"):
        ctx.probe("direct")
        if "Searcher" not in s["interp"]:
            queries = [q for q in queries if est.inside(s, points, q) or est.node(points, q) is not None]
    want = [snap.outcome(lambda: ask(base, q)) for q in queries]
    for q, w in zip(queries, want):
        ctx.probe(("node" if est.node(points, q) is not None else "inside" if est.inside(s, points, q) else "outside")
                  + (" raises" if w["t"] == "X" else ""))
    for d in plan["deliveries"]:
        c = cluster.Cluster(d["cluster"], ctx, compute=lambda i: (i, points[i], temp[i]), payload=lambda i: i)
        got = c.run(list(range(n)))
        order = c.arrival
        # the collector keeps the first copy of every template, in the order of arrival
        p = np.array([got[i][1] for i in order])
        t = np.array([got[i][2] for i in order])
        if d["flat"] and s["grid"]["dim"] == 1 and not plan.get("direct"):
            p = p.reshape(-1)
        ctx.shape(s["kind"], s["interp"], s["extrap"], order)
        if order != sorted(order):
            ctx.fault("templates_reordered")
        e = build(plan, p, t)
        for q, w in zip(queries, want):
            o = snap.outcome(lambda: ask(e, q))
            ctx.units += 1
            ctx.note(snap.digest(o))
            dd = compare(s, o, w)
            if dd:
                ctx.violate("template_order", f"{s['kind']} {s['interp']}/{s['extrap']} order {order}"
                            f"{' flat' if p.ndim == 1 else ''} target {q}: {dd}")
                return


def settle(s, o, w):
    """``o`` with values which are zero on one side and at a rounding error from the minimum on the other one taken from ``w``."""
    m = u.Quantity(1.0 if s["min_aeff"] is None else s["min_aeff"], u.m**2).to_value(u.Unit(o["v"]["unit"]))
    a, b = np.array(o["v"]["v"]), np.array(w["v"]["v"])
    if a.shape != b.shape or o["v"]["unit"] != w["v"]["unit"]:
        return o
    edge = ((a == 0) | (b == 0)) & (np.abs(np.maximum(a, b) - m) <= 1e-9 * m)
    return {**o, "v": {**o["v"], "v": np.where(edge, b, a)}}


def compare(s, o, w):
    if s["kind"] == "aeff" and all(x["t"] == "V" and x["v"]["t"] == "Q" for x in (o, w)):
        o = settle(s, o, w)
    d = snap.diff(o, w, rtol=1e-6, atol_scale=1e-7)
    if d is None or o["t"] != "V" or w["t"] != "V" or "Quantile" not in s["interp"] or s["grid"]["dim"] == 1:
        return d
    # rounding may move single quantiles to a neighbouring bin
    res = s["ikw"].get("quantile_resolution", 1e-3)
    a, b = _cdf(s, o), _cdf(s, w)
    if a is None or b is None:
        return d
    if a.shape == b.shape and (np.abs(a - b) <= 3.5 * res).all():
        return None
    return d


def _cdf(s, o):
    v = o["v"]
    v = u.Quantity(v["v"], v["unit"]) if v["t"] == "Q" else v["v"]
    v = est.rows(s, v)
    return None if v is None else np.cumsum(v * est.widths(s), axis=-1)


def describe(plan):
    return {"est": plan["est"], "targets": len(plan["queries"]), "deliveries": len(plan["deliveries"])}
