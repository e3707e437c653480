"""Canonical forms, comparisons and fingerprints of everything pyirf takes or returns."""
import hashlib
import numbers
import os
import sys

import numpy as np
import astropy.units as u
from astropy.io import fits
from astropy.table import Table, Column, MaskedColumn
from astropy.time import Time

RTOL = 1e-9


# -- canonical form of results ------------------------------------------------------
def canon(obj, depth=0):
    """A picklable description of a result, by value and independent of identity."""
    if depth > 12:
        return {"t": "deep"}
    if obj is None or isinstance(obj, (bool, str, bytes)):
        return obj
    if isinstance(obj, np.bool_):
        return bool(obj)
    if isinstance(obj, u.Quantity):
        return {"t": "Q", "unit": obj.unit.to_string(), "v": np.array(obj.value)}
    if isinstance(obj, (MaskedColumn, np.ma.MaskedArray)):
        m = np.ma.getmaskarray(obj)
        d = np.array(np.ma.getdata(obj))
        return {"t": "A", "v": d, "mask": m if m.any() else None}
    if isinstance(obj, Column):
        v = np.array(obj)
        if obj.unit is not None:
            return {"t": "Q", "unit": obj.unit.to_string(), "v": v}
        return {"t": "A", "v": v}
    if isinstance(obj, np.ndarray):
        if obj.dtype.names:
            return {"t": "R", "v": {n: canon(obj[n], depth + 1) for n in obj.dtype.names}}
        return {"t": "A", "v": np.array(obj)}
    if isinstance(obj, numbers.Number) or isinstance(obj, np.generic):
        return {"t": "A", "v": np.asarray(obj)}
    if isinstance(obj, Table):
        return {
            "t": "T",
            "n": len(obj),
            "c": {n: canon(obj[n], depth + 1) for n in obj.colnames},
        }
    if isinstance(obj, fits.Header):
        return {"t": "H", "c": sorted(
            (k, str(v)) for k, v in obj.items() if k not in ("DATE", "COMMENT", "HISTORY", "")
        )}
    if isinstance(obj, (fits.BinTableHDU,)):
        return {
            "t": "HDU",
            "h": canon(obj.header, depth + 1),
            "c": {c.name: canon(np.asarray(obj.data[c.name]), depth + 1) for c in obj.columns},
            "u": {c.name: str(c.unit) for c in obj.columns},
        }
    if isinstance(obj, dict):
        return {"t": "D", "c": {str(k): canon(v, depth + 1) for k, v in obj.items()}}
    if isinstance(obj, (list, tuple)):
        return {"t": "L", "c": [canon(v, depth + 1) for v in obj]}
    mod = type(obj).__module__
    if mod.startswith("gammapy"):
        d = {"data": canon(obj.quantity, depth + 1)}
        for ax in obj.axes:
            d["axis_" + ax.name] = canon(ax.edges, depth + 1)
        return {"t": "G", "n": type(obj).__name__, "c": d}
    if isinstance(obj, Time):
        return {"t": "time", "v": obj.iso}
    if mod.startswith("pyirf"):
        name = type(obj).__name__
        if name == "SimulatedEventsInfo":
            return {"t": "O", "n": name, "c": {
                k: canon(getattr(obj, k), depth + 1)
                for k in ("n_showers", "energy_min", "energy_max", "max_impact",
                          "spectral_index", "viewcone_min", "viewcone_max")}}
        if callable(obj) and name in ("PowerLaw", "LogParabola",
                                      "PowerLawWithExponentialGaussian",
                                      "TableInterpolationSpectrum"):
            e = np.array([0.01, 0.3, 1.0, 7.0, 150.0]) * u.TeV
            try:
                f = canon(obj(e), depth + 1)
            except Exception as ex:
                f = {"t": "X", "n": type(ex).__name__, "msg": str(ex)[:200]}
            return {"t": "O", "n": name, "c": {"f": f}}
    return {"t": "?", "n": type(obj).__name__}


def outcome(fn):
    """Result or exception class of a call, in canonical form."""
    try:
        r = fn()
    except Exception as e:
        return {"t": "X", "n": type(e).__name__, "msg": str(e)[:200]}
    return {"t": "V", "v": canon(r)}


def task_outcome(task):
    if task.exc is not None:
        return {"t": "X", "n": type(task.exc).__name__, "msg": str(task.exc)[:200]}
    return {"t": "V", "v": canon(task.result)}


def _unit(x):
    return u.Unit(x["unit"]) if x.get("t") == "Q" else u.dimensionless_unscaled


def _num_diff(a, b, rtol, atol_scale):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return f"shape {a.shape} != {b.shape}"
    if a.dtype.kind in "OSUV" or b.dtype.kind in "OSUV":
        return None if np.array_equal(a.astype(str), b.astype(str)) else f"{a!r} != {b!r}"
    if a.size == 0:
        return None
    if a.dtype.kind in "biu" and b.dtype.kind in "biu":
        if np.array_equal(a, b):
            return None
        i = np.argwhere(np.atleast_1d(a != b))[0]
        return f"at {i.tolist()}: {np.atleast_1d(a)[tuple(i)]} != {np.atleast_1d(b)[tuple(i)]}"
    if a.dtype.kind == "f" and a.dtype.itemsize == 4 or b.dtype.kind == "f" and b.dtype.itemsize == 4:
        rtol = max(rtol, 1e-5)
        atol_scale = max(atol_scale, 1e-6)
    a = a.astype(float)
    b = b.astype(float)
    fin = np.isfinite(a) & np.isfinite(b)
    same_special = (np.isnan(a) & np.isnan(b)) | (a == b)
    scale = np.max(np.abs(b[fin])) if fin.any() else 0.0
    with np.errstate(all="ignore"):
        close = np.abs(a - b) <= rtol * np.maximum(np.abs(a), np.abs(b)) + atol_scale * scale
    ok = np.where(fin, close, same_special)
    if ok.all():
        return None
    i = tuple(np.argwhere(~np.atleast_1d(ok))[0])
    return f"at {list(map(int, i))}: {np.atleast_1d(a)[i]!r} != {np.atleast_1d(b)[i]!r}"


def diff(a, b, rtol=RTOL, atol_scale=1e-12, path=""):
    """None if the canonical forms agree, else a description of the first difference."""
    if isinstance(a, dict) and isinstance(b, dict):
        ta, tb = a.get("t"), b.get("t")
        if ta in ("Q", "A") and tb in ("Q", "A"):
            av, bv = a["v"], b["v"]
            if ta != tb or a.get("unit") != b.get("unit"):
                ua, ub = _unit(a), _unit(b)
                if not ua.is_equivalent(ub):
                    return f"{path}: unit {ua} != {ub}"
                av = np.asarray(av) * ua.to(ub)
            ma, mb = a.get("mask"), b.get("mask")
            if (ma is None) != (mb is None) or (ma is not None and not np.array_equal(ma, mb)):
                return f"{path}: masks differ"
            d = _num_diff(av, bv, rtol, atol_scale)
            return None if d is None else f"{path} {d}"
        if ta != tb:
            return f"{path}: {_short(a)} != {_short(b)}"
        if ta == "X":
            if a["n"] != b["n"]:
                return f"{path}: raises {a['n']} ({a['msg']}) != raises {b['n']} ({b['msg']})"
            return None
        if ta in ("V", ):
            return diff(a["v"], b["v"], rtol, atol_scale, path)
        if ta == "T" and a["n"] != b["n"]:
            return f"{path}: table length {a['n']} != {b['n']}"
        if ta == "L":
            if len(a["c"]) != len(b["c"]):
                return f"{path}: length {len(a['c'])} != {len(b['c'])}"
            for i, (x, y) in enumerate(zip(a["c"], b["c"])):
                d = diff(x, y, rtol, atol_scale, f"{path}[{i}]")
                if d:
                    return d
            return None
        if ta == "H":
            return None if a["c"] == b["c"] else f"{path}: header {sorted(set(a['c']) ^ set(b['c']))}"
        for key in ("n", "h", "u"):
            if key in a or key in b:
                x, y = a.get(key), b.get(key)
                d = diff(x, y, rtol, atol_scale, f"{path}.{key}") if isinstance(x, dict) and "t" in x else (
                    None if x == y else f"{path}.{key}: {x} != {y}")
                if d:
                    return d
        ca, cb = a.get("c", a.get("v")), b.get("c", b.get("v"))
        if isinstance(ca, dict) and isinstance(cb, dict):
            if set(ca) != set(cb):
                return f"{path}: keys differ {sorted(set(ca) ^ set(cb))}"
            if ta in ("T", "HDU", "R") and list(ca) != list(cb):
                return f"{path}: order of the columns {list(ca)} != {list(cb)}"
            for k in ca:
                d = diff(ca[k], cb[k], rtol, atol_scale, f"{path}.{k}")
                if d:
                    return d
            return None
        return None if ca is None and cb is None or ca == cb else f"{path}: {ca} != {cb}"
    if a == b:
        return None
    return f"{path}: {_short(a)} != {_short(b)}"


def _short(x):
    if isinstance(x, dict) and x.get("t") == "X":
        return f"raises {x['n']} ({x['msg']})"
    return repr(x)[:160]


def digest(c):
    """Hash of a canonical form, rounded so that it is stable under last-bit noise."""
    h = hashlib.blake2b(digest_size=8)
    _feed(h, c)
    return h.hexdigest()


def _feed(h, c):
    if isinstance(c, dict):
        for k in sorted(c, key=str):
            h.update(str(k).encode())
            _feed(h, c[k])
    elif isinstance(c, (list, tuple)):
        h.update(b"[")
        for x in c:
            _feed(h, x)
    elif isinstance(c, np.ndarray):
        h.update(str(c.shape).encode())
        if c.dtype.kind == "f":
            with np.errstate(all="ignore"):
                h.update(np.array([f"{x:.6e}" for x in c.ravel().astype(float)]).tobytes())
        else:
            h.update(np.array([str(x) for x in c.ravel()]).tobytes())
    else:
        h.update(repr(c).encode())


# -- bitwise fingerprint of inputs --------------------------------------------------
def fingerprint(obj, depth=0):
    """Exact fingerprint: every byte, dtype, unit, column name, meta entry and key."""
    if depth > 8:
        return "deep"
    if isinstance(obj, Table):
        cols = []
        for n in obj.colnames:
            c = obj[n]
            info = c.info
            cols.append((n, fingerprint(c, depth + 1), info.format, info.description,
                         fingerprint(dict(info.meta or {}), depth + 1)))
        return ("T", type(obj).__name__, len(obj), tuple(cols),
                fingerprint(dict(obj.meta), depth + 1), tuple(obj.primary_key or ()),
                tuple(tuple(c.info.name for c in i.columns) for i in obj.indices))
    if isinstance(obj, u.Quantity):
        return ("Q", obj.unit.to_string(), _arr(np.asarray(obj.view(np.ndarray))), type(obj).__name__)
    if isinstance(obj, (MaskedColumn, np.ma.MaskedArray)):
        return ("M", _arr(np.asarray(np.ma.getdata(obj))), _arr(np.ma.getmaskarray(obj)))
    if isinstance(obj, Column):
        return ("C", obj.name, str(obj.unit), _arr(np.asarray(obj)))
    if isinstance(obj, np.ndarray):
        return ("A", _arr(obj))
    if isinstance(obj, dict):
        return ("D", tuple((repr(k), fingerprint(v, depth + 1)) for k, v in obj.items()))
    if isinstance(obj, (list, tuple)):
        return ("L", type(obj).__name__, tuple(fingerprint(v, depth + 1) for v in obj))
    if isinstance(obj, (set, frozenset)):
        return ("S", type(obj).__name__, tuple(sorted(repr(v) for v in obj)))
    if isinstance(obj, (fits.Header,)):
        return ("H", obj.tostring())
    if isinstance(obj, fits.BinTableHDU):
        return ("HDU", obj.header.tostring(), _arr(np.asarray(obj.data)))
    if type(obj).__name__ == "Delaunay":
        return ("DT", _arr(np.asarray(obj.points)), _arr(np.asarray(obj.simplices)))
    if isinstance(obj, (int, float, str, bytes, bool, type(None), np.generic)):
        return (type(obj).__name__, repr(obj))
    if type(obj).__module__.startswith("pyirf"):
        c = canon(obj)
        return ("O", type(obj).__name__, digest(c) if c.get("t") != "?" else None)
    return ("id", type(obj).__name__)


def _arr(a):
    if a.dtype.kind == "O":
        return ("O", a.shape, repr(a.tolist()))
    return (a.dtype.str, a.shape, bool(a.flags.writeable),
            hashlib.blake2b(np.ascontiguousarray(a).tobytes(), digest_size=12).hexdigest())


def fp_diff(a, b, path=""):
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                tag = x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i
                return fp_diff(x, y, f"{path}/{tag}")
    return f"{path}: {str(a)[:120]} -> {str(b)[:120]}"


# -- process-wide state --------------------------------------------------------------
def process_state():
    """What a library call must leave as it found it."""
    import logging
    import random
    import signal
    import threading
    import warnings
    import locale

    logs = {}
    for name in ["", "pyirf"] + sorted(
        n for n in logging.root.manager.loggerDict if n.startswith("pyirf")
    ):
        lg = logging.getLogger(name) if name else logging.root
        if isinstance(lg, logging.Logger):
            logs[name] = (lg.level, len(lg.handlers), lg.disabled, lg.propagate)
    reg = u.get_current_unit_registry()
    st = {
        "np.geterr": tuple(sorted(np.geterr().items())),
        "np.geterrcall": repr(np.geterrcall()),
        "np.printoptions": repr(sorted((k, str(v)) for k, v in np.get_printoptions().items())),
        "np.random": hashlib.md5(repr(np.random.get_state()).encode()).hexdigest(),
        "random": hashlib.md5(repr(random.getstate()).encode()).hexdigest(),
        "warnings.filters": tuple(
            (f[0], getattr(f[1], "pattern", f[1]), f[2].__name__, str(getattr(f[3], "pattern", f[3])), f[4])
            for f in warnings.filters),
        "warnings.showwarning": id(warnings.showwarning),
        "cwd": os.getcwd(),
        "environ": hashlib.md5(repr(sorted(os.environ.items())).encode()).hexdigest(),
        "logging": tuple(sorted(logs.items())),
        "logging.disable": logging.root.manager.disable,
        "locale": locale.setlocale(locale.LC_ALL),
        "recursion": sys.getrecursionlimit(),
        "switchinterval": sys.getswitchinterval(),
        "signals": tuple(repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)),
        "units.equivalencies": len(reg.equivalencies),
        "stdio": (id(sys.stdout), id(sys.stderr)),
        "excepthook": (id(sys.excepthook), id(threading.excepthook)),
        "fds": tuple(sorted(os.listdir("/proc/self/fd")))[:-1],
        "threads": threading.active_count(),
        "path": tuple(sys.path),
    }
    um = os.umask(0o22)
    os.umask(um)
    st["umask"] = um
    return st


def state_diff(a, b):
    out = []
    for k in a:
        if k == "fds":
            if len(a[k]) != len(b[k]):
                out.append(f"open file descriptors {len(a[k])} -> {len(b[k])}")
        elif a[k] != b[k]:
            out.append(f"{k}: {str(a[k])[:150]} -> {str(b[k])[:150]}")
    return out
