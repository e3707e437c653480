"""Small independent reference models (plain Python, no pyirf)."""
import math


def find_bin(x, edges, closed_last):
    """Index of the bin containing x, or None.  Bins are [lo, hi); see ``closed_last``."""
    if x != x:
        return None
    n = len(edges) - 1
    for i in range(n):
        if edges[i] <= x < edges[i + 1]:
            return i
    if closed_last and x == edges[n] and edges[n] != math.inf:
        return n - 1
    if closed_last and x == edges[n]:
        return n - 1
    return None


def hist_nd(columns, edges, weights=None):
    """dict bin-tuple -> (weighted) count, numpy.histogramdd convention."""
    out = {}
    n = len(columns[0])
    for k in range(n):
        idx = []
        for c, e in zip(columns, edges):
            i = find_bin(c[k], e, True)
            if i is None:
                break
            idx.append(i)
        else:
            key = tuple(idx)
            out.setdefault(key, []).append(1.0 if weights is None else weights[k])
    return {k: math.fsum(v) for k, v in out.items()}


def percentile(values, q):
    """Linear-interpolation percentile of finite values, q in [0, 100]."""
    v = sorted(x for x in values if x == x)
    if not v:
        return math.nan
    pos = (len(v) - 1) * q / 100.0
    i = int(math.floor(pos))
    if i >= len(v) - 1:
        return v[-1]
    return v[i] + (v[i + 1] - v[i]) * (pos - i)


def li_ma(n_on, n_off, alpha):
    if n_on < alpha * n_off:
        return 0.0
    tot = n_on + n_off
    if tot == 0:
        return math.nan
    t1 = 0.0 if n_on == 0 else n_on * math.log((1 + alpha) / alpha * n_on / tot)
    t2 = 0.0 if n_off == 0 else n_off * math.log((1 + alpha) * n_off / tot)
    return math.sqrt(max(0.0, 2 * (t1 + t2)))


def cone(angle_rad):
    # 1 - cos(x) without cancellation
    return 4 * math.pi * math.sin(angle_rad / 2) ** 2


def powerlaw_fraction(index, lo, hi, emin, emax):
    """Fraction of a power-law spectrum between emin and emax falling in [lo, hi]."""
    lo = max(lo, emin)
    hi = min(hi, emax)
    if hi <= lo:
        return 0.0
    if index == -1:
        return math.log(hi / lo) / math.log(emax / emin)
    k = index + 1
    return (hi**k - lo**k) / (emax**k - emin**k)


def cone_fraction(lo, hi, vmin, vmax):
    lo = max(lo, vmin)
    hi = min(hi, vmax)
    if hi <= lo:
        return 0.0
    return (cone(hi) - cone(lo)) / (cone(vmax) - cone(vmin))


def separation(lon1, lat1, lon2, lat2):
    """Angular distance (radians), Vincenty."""
    dl = lon2 - lon1
    a = math.cos(lat2) * math.sin(dl)
    b = math.cos(lat1) * math.sin(lat2) - math.sin(lat1) * math.cos(lat2) * math.cos(dl)
    c = math.sin(lat1) * math.sin(lat2) + math.cos(lat1) * math.cos(lat2) * math.cos(dl)
    return math.atan2(math.hypot(a, b), c)


def position_angle(lon1, lat1, lon2, lat2):
    """Position angle (radians) of point 2 as seen from point 1, east of north."""
    dl = lon2 - lon1
    x = math.sin(lat2) * math.cos(lat1) - math.cos(lat2) * math.sin(lat1) * math.cos(dl)
    y = math.sin(dl) * math.cos(lat2)
    return math.atan2(y, x) % (2 * math.pi)


def fov_lonlat(lon, lat, plon, plat):
    """Offset-frame coordinates (radians); longitude sign not yet flipped."""
    dl = lon - plon
    x = math.cos(lat) * math.cos(dl)
    y = math.cos(lat) * math.sin(dl)
    z = math.sin(lat)
    # rotate so that the pointing becomes the x axis
    xr = math.cos(plat) * x + math.sin(plat) * z
    zr = -math.sin(plat) * x + math.cos(plat) * z
    return math.atan2(y, xr), math.atan2(zr, math.hypot(xr, y))
