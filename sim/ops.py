"""Catalogue of calls of pyirf's public functions and objects.

An operation is JSON: {"op": name, "a": {argument: argument spec}, ...}.  Argument specs
are small JSON objects; the same spec inside one World is the same object, so that
operations which draw their specs from one pool share their inputs.
"""
import copy
import json
import operator
import pathlib
import os

import numpy as np
import astropy.units as u
from astropy.table import QTable, Table, Column

import tqdm

from . import est, gen
from . import snapshot as snap
from .sched import point


# tqdm would start its own thread
tqdm.tqdm.monitor_interval = 0


class Boom(Exception):
    """Raised by a user-supplied function."""


class BoomBase(BaseException):
    """Raised by a user-supplied function; not an Exception."""


BOOMS = {"Boom": Boom, "BoomBase": BoomBase, "ValueError": ValueError, "RuntimeError": RuntimeError,
         "KeyboardInterrupt": KeyboardInterrupt, "ZeroDivisionError": ZeroDivisionError}


# ------------------------------------------------------------------ argument specs
def pool(r, n=2, small=False):
    """The specs operations draw from; few, so that inputs are shared."""
    mx = 25 if small else 60
    return {
        "ev": [gen.events_spec(r, max_n=mx) for _ in range(n)],
        "eb": [gen.energy_bins_spec(r) for _ in range(n)],
        "ab": [gen.angle_bins_spec(r) for _ in range(n)],
        "sab": [gen.angle_bins_spec(r, hi=1.0) for _ in range(n)],
        "lb": [gen.angle_bins_spec(r, sym=True) for _ in range(n)],
        "pb": [gen.angle_bins_spec(r, hi=360.0) for _ in range(n)],
        "mb": [gen.migra_bins_spec(r, r.choice([3, 5, 10])) for _ in range(n)],
        "si": [gen.siminfo_spec(r) for _ in range(n)],
        "sp": [spectrum_spec(r) for _ in range(n)],
        "est": [est.spec(r) for _ in range(n)],
        "seed": [r.randrange(1 << 30) for _ in range(n)],
    }


def spectrum_spec(r):
    k = r.choice(["power", "power", "logpar", "expgauss", "table", "tablefile", "sim", "const", "const"])
    s = {"kind": k, "norm": r.choice([1e-5, 2.83e-11, 3.0]), "index": r.choice([-2.0, -2.62, -2.7]),
         "unit": r.choice(["1/(TeV cm2 s)", "1/(GeV m2 s)"]), "diffuse": r.random() < 0.4,
         "eref": r.choice([None, 1.0, 0.3]), "seed": r.randrange(1 << 30)}
    if k == "const":
        s["name"] = r.choice(["CRAB_HEGRA", "CRAB_MAGIC_JHEAP2015", "PDG_ALL_PARTICLE", "IRFDOC_PROTON_SPECTRUM",
                              "IRFDOC_ELECTRON_SPECTRUM", "DAMPE_P_He_SPECTRUM"])
    if k == "sim":
        s["si"] = gen.siminfo_spec(r)
    return s


def build_spectrum(s, world):
    import pyirf.spectral as S

    unit = u.Unit(s["unit"])
    if s["diffuse"]:
        unit = unit / u.sr
    norm = s["norm"] * unit
    kw = {} if s["eref"] is None else {"e_ref": s["eref"] * u.TeV}
    k = s["kind"]
    if k == "power":
        return S.PowerLaw(norm, s["index"], **kw)
    if k == "logpar":
        return S.LogParabola(norm, s["index"], -0.24, **kw)
    if k == "expgauss":
        return S.PowerLawWithExponentialGaussian(norm, s["index"], u.Quantity(s["eref"] or 1.0, u.TeV), 1.95, -0.1, 0.74)
    if k in ("table", "tablefile"):
        g = np.random.default_rng(s["seed"])
        e = np.geomspace(0.01, 100, 6) * u.TeV
        f = s["norm"] * e.value ** s["index"] * np.exp(g.normal(0, 0.1, 6)) * unit
        t = QTable({"energy": e, "flux": f})
        if k == "table":
            return S.TableInterpolationSpectrum.from_table(t)
        path = os.path.join(world.scratch(), "spec%d.ecsv" % s["seed"])
        if not os.path.exists(path):
            t.write(path + ".tmp%d" % os.getpid(), format="ascii.ecsv", overwrite=True)
            os.replace(path + ".tmp%d" % os.getpid(), path)
        return S.TableInterpolationSpectrum.from_file(path)
    if k == "sim":
        return S.PowerLaw.from_simulation(gen.siminfo(s["si"]), 50 * u.hour)
    return getattr(S, s["name"])


def _edges_tev(s):
    return gen.energy_bins(s).to_value(u.TeV)


def cut_table(a, world):
    """A cut table as pyirf makes them, built independently."""
    q = gen.energy_bins(a["bins"])
    g = np.random.default_rng(a["seed"])
    n = len(q) - 1
    t = QTable()
    t["low"], t["high"] = q[:-1], q[1:]
    t["center"] = 0.5 * (q[:-1] + q[1:])
    if a["what"] == "theta":
        t["cut"] = u.Quantity(g.uniform(0.05, 1.0, n), u.deg)
        if a.get("unit") == "rad":
            t["cut"] = t["cut"].to("rad")
    else:
        t["cut"] = g.uniform(0, 0.6, n)
    if a.get("sortedmeta"):
        t.meta["TELESCOP"] = "x"
    return t


def hist_table(a, world):
    q = gen.energy_bins(a["bins"])
    g = np.random.default_rng(a["seed"])
    n = len(q) - 1
    t = QTable()
    t["reco_energy_low"], t["reco_energy_high"] = q[:-1], q[1:]
    t["reco_energy_center"] = 0.5 * (q[:-1] + q[1:])
    c = np.round(10 ** g.uniform(*(a.get("lohi") or [0, 4]), n))
    c[g.random(n) < 0.1] = 0
    t["n"] = c.astype(int)
    t["n_weighted"] = c * g.uniform(0.2, 1.5, n)
    if a.get("unit"):
        t["n_weighted"] = u.Quantity(t["n_weighted"], u.one)
    return t


def irf_array(a, world):
    """Values with the shape the given binnings ask for."""
    g = np.random.default_rng(a["seed"])
    shape = tuple(len(world.arg(b)) - 1 for b in a["dims"])
    v = g.uniform(*(a.get("lohi") or [0, 1]), shape)
    v[g.random(shape) < 0.1] = 0
    if a.get("norm"):
        s = v.sum(axis=a["norm"] - 1, keepdims=True)
        v = np.divide(v, s, out=np.zeros_like(v), where=s > 0)
    v = np.array(v, order=a.get("order", "C"), dtype=a.get("dtype", "f8"))
    return u.Quantity(v, a["unit"], copy=False) if a.get("unit") else v


class Callback:
    """A user-supplied function which fails at its n-th evaluation (0: never)."""

    def __init__(self, fn, fail_at, exc, nth=None):
        self.fn, self.fail_at, self.exc, self.n = fn, fail_at, exc, 0
        self.fired = 0

    def __call__(self, *args, **kw):
        self.n += 1
        point("user function")
        if self.n == self.fail_at:
            self.fired += 1
            raise BOOMS[self.exc](f"injected at evaluation {self.n}")
        return self.fn(*args, **kw)


def _simple_sig(n_on, n_off, alpha):
    return (n_on - alpha * n_off) / np.sqrt(alpha * n_off + 1.0)


def _user_spec(e):
    return 1e-9 * (e.to_value(u.TeV)) ** -2.3 / (u.TeV * u.cm**2 * u.s)


def callback(a, world):
    from pyirf.statistics import li_ma_significance

    fns = {"lima": li_ma_significance, "simple": _simple_sig, "median": np.nanmedian, "mean": np.mean, "std": np.std,
           "ge": operator.ge, "le": operator.le, "lt": operator.lt, "spec": _user_spec}
    return Callback(fns[a["fn"]], a.get("fail_at", 0), a.get("exc", "Boom"))


def plain(a, world):
    g = np.random.default_rng(a["seed"])
    v = g.uniform(*(a.get("lohi") or [0, 1]), a["shape"])
    if a.get("int"):
        v = np.round(v).astype(int)
    if a.get("log"):
        v = 10.0 ** v
    if a.get("sort"):
        v = np.sort(v)
    if a.get("dtype"):
        v = v.astype(a["dtype"])
    if a.get("list"):
        return v.tolist()
    return u.Quantity(v, a["unit"], copy=False) if a.get("unit") else v


def column(a, world):
    """A column of a shared table; with "view" the column object itself."""
    return world.arg(a["ev"])[a["name"]]


def subset(a, world):
    """What a user selects: a masked copy of a shared table or a column subset."""
    t = world.arg(a["ev"])
    g = np.random.default_rng(a["seed"])
    return t[g.random(len(t)) < a.get("p", 0.6)]


def estimator_args(a, world):
    cls, args, kw = _estimator_call(a["est"], *_templates(a["est"], world))
    prints = [(v, f"{cls.__name__} argument {i}", snap.fingerprint(v)) for i, v in enumerate(args)]
    prints += [(v, f"{cls.__name__} {n}", snap.fingerprint(v)) for n, v in kw.items() if isinstance(v, dict)]
    return cls(*args, **kw), prints


BUILDERS = {
    "specfile": lambda a, w: spec_file(a, w),
    "events": lambda a, w: w.events(a),
    "ebins": lambda a, w: gen.energy_bins(a["s"]),
    "abins": lambda a, w: gen.angle_bins(a["s"]),
    "mbins": lambda a, w: gen.migra_bins(a["s"]),
    "siminfo": lambda a, w: gen.siminfo(a["s"]),
    "spectrum": lambda a, w: build_spectrum(a["s"], w),
    "cut": cut_table, "hist": hist_table, "irf": irf_array, "plain": plain,
    "col": column, "subset": subset,
    "q": lambda a, w: u.Quantity(a["v"], a["u"]),
    "v": lambda a, w: copy.deepcopy(a["v"]),
    "unit": lambda a, w: u.Unit(a["v"]),
    "np": lambda a, w: np.array(a["v"], dtype=a.get("dtype")),
    "callback": callback,
    "operator": lambda a, w: getattr(operator, a["v"]),
    "list": lambda a, w: [w.arg(x) for x in a["v"]],
    "set": lambda a, w: set(a["v"]),
    "dict": lambda a, w: {k: w.arg(x) for k, x in a["v"].items()},
    "lo": lambda a, w: w.arg(a["x"])[:-1], "hi": lambda a, w: w.arg(a["x"])[1:],
    "delaunay": lambda a, w: __import__("scipy.spatial", fromlist=["Delaunay"]).Delaunay(w.arg(a["x"])),
    "points": lambda a, w: est.templates(a["est"])[0],
    "enum": lambda a, w: getattr(__import__("pyirf.interpolation", fromlist=["x"]).PDFNormalization, a["v"]),
}
FRESH = {"callback"}


def spec_file(a, w):
    """A file with a tabulated spectrum, as the user left it."""
    how = a["how"]
    path = os.path.join(w.scratch(), "table%d%s.ecsv" % (a["seed"], how))
    if how != "missing" and not os.path.exists(path):
        g = np.random.default_rng(a["seed"])
        e = np.geomspace(0.01, 100, 6) * u.TeV
        f = 1e-11 * e.value ** -2.5 * np.exp(g.normal(0, 0.1, 6)) * u.Unit("TeV-1 s-1 cm-2")
        if how == "units":
            e, f = e.to(u.GeV), f.to("GeV-1 s-1 m-2")
        if how == "wrong_unit":
            f = f.value * u.m
        tmp = path + ".tmp%d" % os.getpid()
        QTable({"energy": e, "flux" if how != "column" else "phi": f}).write(tmp, format="ascii.ecsv", overwrite=True)
        if how in ("empty", "garbage", "torn", "ragged"):
            text = open(tmp).read()
            text = {"empty": "", "garbage": "\x00\x01 no table \n\n%", "torn": text[: len(text) * 2 // 3],
                    "ragged": text + "1 2 3 4\n"}[how]
            with open(tmp, "w") as fh:
                fh.write(text)
        os.replace(tmp, path)
    return path if a["as"] == "str" else pathlib.Path(path)


class World:
    """Builds and shares the arguments of operations."""

    def __init__(self, scratch=None):
        self.memo = {}
        self._scratch = scratch
        self.estimators = {}

    def scratch(self):
        return self._scratch() if callable(self._scratch) else self._scratch

    def key(self, a):
        return json.dumps(a, sort_keys=True)

    def arg(self, a):
        k = self.key(a)
        if a["k"] in FRESH:
            return BUILDERS[a["k"]](a, self)
        if k not in self.memo:
            v = BUILDERS[a["k"]](a, self)
            if a.get("view"):
                v = as_view(v)
            if a.get("ro"):
                v = read_only(v)
            self.memo[k] = v
        return self.memo[k]

    def events(self, a):
        t = gen.events(a["s"], a.get("edges", ()), a.get("aedges", ()))
        if a.get("drop"):
            t.remove_columns([c for c in a["drop"] if c in t.colnames])
        if a.get("table") == "Table":
            t = Table(t)
        if a.get("extra"):
            t["user"] = np.arange(len(t))
        return t

    def estimator(self, a):
        k = self.key(a["est"])
        if k not in self.estimators:
            self.estimators[k] = estimator_args(a, self)
        return self.estimators[k]


def as_view(v):
    """The same values as a view of a larger array of the caller's."""
    if isinstance(v, u.Quantity) and v.ndim == 1:
        base = np.repeat(v.value, 2)
        return u.Quantity(base, v.unit, copy=False)[::2]
    if isinstance(v, np.ndarray) and type(v) is np.ndarray and v.ndim == 1:
        return np.repeat(v, 2)[::2]
    return v


def read_only(v):
    if isinstance(v, np.ndarray) and type(v) in (np.ndarray, u.Quantity):
        v.flags.writeable = False
    return v


# ------------------------------------------------------------------ drawing specs
class Draw:
    def __init__(self, r, p):
        self.r, self.p = r, p

    def pick(self, k):
        return self.r.choice(self.p[k])

    def flavour(self, a):
        x = self.r.random()
        if x < 0.06:
            a["ro"] = True
        elif x < 0.12:
            a["view"] = True
        return a

    def ev(self, **kw):
        s = dict(self.pick("ev"))
        need = kw.pop("weight", None)
        if need and s["weight"] == "none":
            s["weight"] = "float"
        a = {"k": "events", "s": s, **kw}
        if self.r.random() < 0.08:
            a["table"] = "Table"
        if self.r.random() < 0.1:
            a["extra"] = 1
        if self.r.random() < 0.12:
            return {"k": "subset", "ev": a, "seed": self.pick("seed"), "p": self.r.choice([0.6, 0.9])}
        return a

    def evt(self, **kw):
        """Always the table itself, so that its columns can be shared."""
        a = self.ev(**kw)
        while a["k"] == "subset":
            a = a["ev"]
        return a

    def eb(self, overflow=True):
        s = dict(self.pick("eb"))
        if overflow and self.r.random() < 0.1:
            s["overflow"] = True
        return self.flavour({"k": "ebins", "s": s})

    def ab(self, k="ab"):
        return self.flavour({"k": "abins", "s": self.pick(k)})

    def mb(self):
        return self.flavour({"k": "mbins", "s": self.pick("mb")})

    def si(self, diffuse=None):
        s = dict(self.pick("si"))
        if diffuse is False:
            s["vmin"] = s["vmax"] = 0.0
        if diffuse is True and s["vmax"] == 0:
            s["vmax"] = 10.0
        return {"k": "siminfo", "s": s}

    def sp(self):
        return {"k": "spectrum", "s": self.pick("sp")}

    def q(self, vals, unit):
        return {"k": "q", "v": self.r.choice(vals), "u": unit}

    def v(self, *vals):
        return {"k": "v", "v": self.r.choice(vals)}

    def irf(self, dims, unit=None, **kw):
        return {"k": "irf", "dims": dims, "seed": self.pick("seed"), "unit": unit,
                "order": self.r.choice("CCF"), **kw}

    def cut(self, what="theta", bins=None):
        return {"k": "cut", "what": what, "bins": bins or self.pick("eb"), "seed": self.pick("seed"),
                "unit": self.r.choice(["deg", "deg", "rad"])}

    def hist(self, bins=None, **kw):
        return {"k": "hist", "bins": bins or self.pick("eb"), "seed": self.r.choice(self.p["seed"]) + self.r.randint(0, 1),
                "unit": self.r.random() < 0.2, **kw}

    def plain(self, shape, **kw):
        return self.flavour({"k": "plain", "shape": shape, "seed": self.pick("seed"), **kw})

    def fn(self, *names, fail=0.0):
        a = {"k": "callback", "fn": self.r.choice(names), "fail_at": 0, "exc": "Boom"}
        if self.r.random() < fail:
            a["fail_at"] = self.r.choice([1, 1, 2, 3, 5, 10, 30])
            a["exc"] = self.r.choice(sorted(BOOMS))
        return a

    def maybe(self, d, key, a, p=0.5):
        if self.r.random() < p:
            d[key] = a
        return d


GEN = {}
FUNC = {}


def op(name, func=None):
    def deco(f):
        GEN[name] = f
        FUNC[name] = func or name
        return f
    return deco


# -- binning
@op("bin_center", "binning.bin_center")
def _(d):
    return {"edges": d.r.choice([d.eb(), d.ab(), d.mb()])}


@op("join_bin_lo_hi", "binning.join_bin_lo_hi")
def _(d):
    x = d.r.choice([d.eb(overflow=False), d.ab()])
    y = x if d.r.random() < 0.85 else d.ab()
    return {"bin_lo": {"k": "lo", "x": x}, "bin_hi": {"k": "hi", "x": y}}


@op("split_bin_lo_hi", "binning.split_bin_lo_hi")
def _(d):
    return {"bins": d.r.choice([d.eb(), d.ab(), d.mb()])}


@op("add_overflow_bins", "binning.add_overflow_bins")
def _(d):
    return d.maybe({"bins": d.r.choice([d.eb(), d.ab(), d.mb()])}, "positive", d.v(True, False))


@op("create_bins_per_decade", "binning.create_bins_per_decade")
def _(d):
    return d.maybe({"e_min": d.q([0.01, 0.02, 10.0], "TeV"), "e_max": d.q([100.0, 150e3], d.r.choice(["TeV", "GeV"]))},
                   "bins_per_decade", d.v(1, 3, 5, 10))


@op("calculate_bin_indices", "binning.calculate_bin_indices")
def _(d):
    return {"data": {"k": "col", "ev": d.evt(), "name": d.r.choice(["reco_energy", "true_energy"])}, "bins": d.eb()}


@op("create_histogram_table", "binning.create_histogram_table")
def _(d):
    return d.maybe({"events": d.ev(), "bins": d.eb()}, "key", d.v("reco_energy", "true_energy"))


@op("resample_histogram1d", "binning.resample_histogram1d")
def _(d):
    n, ax = d.r.choice([3, 5]), d.r.choice([0, 1, -1])
    shape = [2, n] if ax else [n, 2]
    return {"data": d.plain(shape, lohi=[0, 10]),
            "old_edges": {"k": "v", "v": np.linspace(0, 1, n + 1).tolist()} if d.r.random() < 0.2 else
            {"k": "np", "v": np.linspace(0, 1, n + 1).tolist()},
            "new_edges": {"k": "np", "v": np.linspace(0, d.r.choice([1, 1, 2]), d.r.choice([3, 7])).tolist()},
            "axis": {"k": "v", "v": ax}}


# -- statistics and sensitivity
@op("li_ma_significance", "statistics.li_ma_significance")
def _(d):
    if d.r.random() < 0.3:
        a = {"n_on": d.v(10, 30.5, 0), "n_off": d.v(0, 12, 100.0)}
    else:
        n = d.r.choice([0, 1, 6])
        kw = d.r.choice([{}, {"int": 1}, {"list": 1}])
        a = {"n_on": d.plain([n], lohi=[0, 60], **kw), "n_off": d.plain([n], lohi=[0, 90], **kw)}
    return d.maybe(a, "alpha", d.v(0.2, 1.0, 0.1))


def _sens_kwargs(d, a, fail):
    d.maybe(a, "min_significance", d.v(5, 3, 1.0), 0.4)
    d.maybe(a, "min_signal_events", d.v(10, 0, 1), 0.4)
    d.maybe(a, "min_excess_over_background", d.v(0.05, 0.0, 0.3), 0.4)
    d.maybe(a, "significance_function", d.fn("lima", "simple", fail=fail), 0.4)
    return a


@op("relative_sensitivity", "sensitivity.relative_sensitivity")
def _(d, fail=0.0):
    n = d.r.choice([1, 2, 4])
    if d.r.random() < 0.3:
        a = {"n_on": d.v(30.0, 55, 300.5), "n_off": d.v(12.0, 100)}
    else:
        a = {"n_on": d.plain([n], lohi=[0.5, 3], log=1), "n_off": d.plain([n], lohi=[0, 3], log=1)}
    a["alpha"] = d.v(1.0, 0.2, 0.5)
    return _sens_kwargs(d, a, fail)


@op("calculate_sensitivity", "sensitivity.calculate_sensitivity")
def _(d, fail=0.0):
    b = d.pick("eb")
    b2 = b if d.r.random() < 0.9 else d.pick("eb")
    return _sens_kwargs(d, {"signal_hist": d.hist(b, lohi=[1, 3]), "background_hist": d.hist(b2, lohi=[0, 2]),
                            "alpha": d.v(1.0, 0.2)}, fail)


@op("estimate_background", "sensitivity.estimate_background")
def _(d):
    b = d.pick("eb")
    return {"events": d.ev(weight=1), "reco_energy_bins": {"k": "ebins", "s": b}, "theta_cuts": d.cut("theta", b),
            "alpha": d.v(1.0, 0.2), "fov_offset_min": d.q([0.0, 0.5], d.r.choice(["deg", "rad"])),
            "fov_offset_max": d.q([1.0, 2.5], "deg")}


# -- cuts
@op("calculate_percentile_cut", "cuts.calculate_percentile_cut")
def _(d):
    ev = d.evt()
    what = d.r.choice(["theta", "gh_score"])
    a = {"values": {"k": "col", "ev": ev, "name": what}, "bin_values": {"k": "col", "ev": ev, "name": "reco_energy"},
         "bins": d.eb(), "fill_value": d.q([0.3, 0.32], "deg") if what == "theta" else d.v(0.4, float("nan"))}
    d.maybe(a, "percentile", d.r.choice([d.v(68, 80, 10.0), {"k": "v", "v": [10, 50.0, 90]}]), 0.7)
    if what == "theta":
        d.maybe(a, "min_value", d.q([0.05, 0.1], "deg"), 0.4)
        d.maybe(a, "max_value", d.q([0.32, 0.01], d.r.choice(["deg", "rad"])), 0.4)
    else:
        d.maybe(a, "max_value", d.v(0.5, 0.6), 0.3)
    d.maybe(a, "smoothing", d.v(None, 1, 0.5), 0.3)
    d.maybe(a, "min_events", d.v(1, 2, 5, 10), 0.7)
    return a


def _op(d, fail):
    if d.r.random() < 0.4 or fail:
        return d.fn("ge", "le", "lt", fail=fail)
    return {"k": "operator", "v": d.r.choice(["ge", "le", "lt", "gt"])}


@op("evaluate_binned_cut", "cuts.evaluate_binned_cut")
def _(d, fail=0.0):
    ev = d.evt()
    what = d.r.choice(["theta", "gh_score"])
    return {"values": {"k": "col", "ev": ev, "name": what}, "bin_values": {"k": "col", "ev": ev, "name": "reco_energy"},
            "cut_table": d.cut("theta" if what == "theta" else "gh"), "op": _op(d, fail)}


@op("evaluate_binned_cut_by_index", "cuts.evaluate_binned_cut_by_index")
def _(d, fail=0.0):
    n, b = d.r.choice([1, 7, 20]), d.pick("eb")
    return {"values": d.plain([n]), "bin_index": d.plain([n], lohi=[0, b["n"] - 1], int=1),
            "valid": {"k": "np", "v": [i % 5 != 3 for i in range(n)]}, "cut_table": d.cut("gh", b), "op": _op(d, fail)}


@op("compare_irf_cuts", "cuts.compare_irf_cuts")
def _(d):
    a = d.cut("theta")
    other = a if d.r.random() < 0.6 else d.cut("theta")
    return {"cuts": {"k": "list", "v": [a, other, a][: d.r.choice([1, 2, 3, 3])]}}


def _opt(d, fail):
    b = {"k": "ebins", "s": dict(d.pick("eb"), n=min(3, d.p["eb"][0]["n"]))}
    a = {"signal": d.evt(weight=1), "background": d.evt(weight=1), "reco_energy_bins": b,
         "gh_cut_efficiencies": {"k": "np", "v": sorted(d.r.sample([0.2, 0.4, 0.6, 0.8, 0.95], d.r.randint(1, 2)))}}
    if a["signal"]["s"]["weight"] != a["background"]["s"]["weight"]:
        a["background"] = {**a["background"], "s": {**a["background"]["s"], "weight": a["signal"]["s"]["weight"]}}
    d.maybe(a, "fov_offset_min", d.q([0.0, 0.3], "deg"), 0.3)
    d.maybe(a, "fov_offset_max", d.q([1.0, 3.0], "deg"), 0.5)
    d.maybe(a, "alpha", d.v(0.2, 1.0), 0.5)
    a["progress"] = {"k": "v", "v": d.r.random() < 0.3}
    d.maybe(a, "min_significance", d.v(3, 5), 0.2)
    if fail:
        a["significance_function"] = d.fn("lima", "simple", fail=fail)
    return a


@op("optimize_cuts", "cut_optimization.optimize_cuts")
def _(d, fail=0.0):
    a = _opt(d, fail)
    a["multiplicity_cuts"] = {"k": "v", "v": d.r.choice([[2], [2, 4], [3, 9]])}
    a["theta_cut_efficiencies"] = {"k": "v", "v": d.r.choice([[0.5], [0.3, 0.8]])}
    d.maybe(a, "theta_max_value", d.q([0.3, 1.0], "deg"), 0.4)
    return a


@op("optimize_gh_cut", "cut_optimization.optimize_gh_cut")
def _(d, fail=0.0):
    a = _opt(d, fail)
    a["theta_cuts"] = d.cut("theta", a["reco_energy_bins"]["s"])
    if d.r.random() < 0.3:
        a["op"] = {"k": "operator", "v": d.r.choice(["ge", "le"])}
    return a


# -- spectra
@op("calculate_event_weights", "spectral.calculate_event_weights")
def _(d, fail=0.0):
    return {"true_energy": {"k": "col", "ev": d.evt(), "name": "true_energy"},
            "target_spectrum": d.fn("spec", fail=fail) if d.r.random() < 0.25 or fail else d.sp(),
            "simulated_spectrum": d.sp()}


@op("spectrum_call", "#spectrum")
def _(d):
    return {"spectrum": d.sp(), "energy": d.r.choice([{"k": "col", "ev": d.evt(), "name": "true_energy"}, d.eb(overflow=False),
                                                      d.q([1.0, 0.3], "TeV")])}


@op("spectrum_new", "#spectrum_new")
def _(d):
    return {"spec": {"k": "v", "v": d.pick("sp")}, "energy": d.eb(overflow=False)}


@op("spectrum_from_file", "#spectrum_file")
def _(d):
    a = {"path": {"k": "specfile", "how": d.r.choice(["ok", "ok", "ok", "units", "missing", "empty", "garbage", "torn", "column",
                                                      "wrong_unit", "ragged"]),
                  "seed": d.pick("seed") % 1000, "as": d.r.choice(["str", "Path"])}, "energy": d.eb(overflow=False)}
    for k in ("log_energy", "log_flux"):
        if d.r.random() < 0.2:
            a[k] = d.v(False)
    return a


@op("spectrum_object", "#spectrum_object")
def _(d):
    s = dict(d.pick("sp"))
    if s["kind"] == "const":
        s["kind"] = "power"
    if d.r.random() < 0.5:
        s["eref"] = None
    return {"spec": {"k": "v", "v": s}}


@op("from_simulation", "spectral.PowerLaw.from_simulation")
def _(d):
    return d.maybe({"simulated_event_info": d.si(), "obstime": d.q([50.0, 0.5], d.r.choice(["hour", "s", "min"]))},
                   "e_ref", d.q([1.0, 0.3], "TeV"), 0.4)


@op("integrate_cone", "#integrate_cone")
def _(d):
    s = dict(d.pick("sp"), kind="power")
    s.setdefault("diffuse", True)
    if d.r.random() < 0.8:
        s["diffuse"] = True
    return {"spectrum": {"k": "spectrum", "s": s}, "inner": d.q([0.0, 0.5, 1.0], "deg"), "outer": d.q([2.0, 5.0], "deg")}


@op("spectrum_repr", "#repr")
def _(d):
    return {"obj": d.r.choice([d.sp(), d.si()])}


# -- simulations
@op("siminfo_new", "#siminfo_new")
def _(d):
    return {"s": {"k": "v", "v": d.pick("si")}}


@op("n_showers_energy", "#si.calculate_n_showers_per_energy")
def _(d):
    return {"self": d.si(), "energy_bins": d.eb()}


@op("n_showers_fov", "#si.calculate_n_showers_per_fov")
def _(d):
    return {"self": d.si(), "fov_bins": d.ab()}


@op("n_showers_energy_fov", "#si.calculate_n_showers_per_energy_and_fov")
def _(d):
    return {"self": d.si(), "energy_bins": d.eb(), "fov_bins": d.ab()}


@op("n_showers_polar", "#si.calculate_n_showers_3d_polar")
def _(d):
    return {"self": d.si(), "energy_bins": d.eb(), "fov_offset_bins": d.ab(), "fov_position_angle_bins": d.ab("pb")}


@op("n_showers_lonlat", "#si.calculate_n_showers_3d_lonlat")
def _(d):
    return {"self": d.si(True), "energy_bins": d.eb(), "fov_longitude_bins": d.ab("lb"), "fov_latitude_bins": d.ab("lb"),
            "subpixels": d.v(2, 3, 5)}


# -- irf
@op("effective_area", "irf.effective_area")
def _(d):
    n = d.r.choice([1, 4])
    return {"n_selected": d.plain([n], lohi=[0, 50], **d.r.choice([{}, {"int": 1}, {"unit": ""}])),
            "n_simulated": d.plain([n], lohi=[-1 if d.r.random() < 0.1 else 0, 5], log=1), "area": d.q([1e6, 1.0], d.r.choice(["m2", "km2"]))}


@op("effective_area_per_energy", "irf.effective_area_per_energy")
def _(d):
    return {"selected_events": d.ev(), "simulation_info": d.si(d.r.choice([None, False])), "true_energy_bins": d.eb()}


@op("effective_area_per_energy_and_fov", "irf.effective_area_per_energy_and_fov")
def _(d):
    return {"selected_events": d.ev(), "simulation_info": d.si(), "true_energy_bins": d.eb(), "fov_offset_bins": d.ab()}


@op("effective_area_3d_polar", "irf.effective_area_3d_polar")
def _(d):
    return {"selected_events": d.ev(), "simulation_info": d.si(), "true_energy_bins": d.eb(), "fov_offset_bins": d.ab(),
            "fov_position_angle_bins": d.ab("pb")}


@op("effective_area_3d_lonlat", "irf.effective_area_3d_lonlat")
def _(d):
    return {"selected_events": d.ev(), "simulation_info": d.si(True), "true_energy_bins": d.eb(),
            "fov_longitude_bins": d.ab("lb"), "fov_latitude_bins": d.ab("lb"), "subpixels": d.v(2, 5)}


@op("energy_dispersion", "irf.energy_dispersion")
def _(d):
    return {"selected_events": d.ev(), "true_energy_bins": d.eb(overflow=False), "fov_offset_bins": d.ab(), "migration_bins": d.mb()}


@op("energy_migration_matrix", "irf.energy_dispersion.energy_migration_matrix")
def _(d):
    return {"events": d.ev(), "true_energy_bins": d.eb(overflow=False), "reco_energy_bins": d.eb(overflow=False),
            "fov_offset_bins": d.ab()}


@op("energy_dispersion_to_migration", "irf.energy_dispersion.energy_dispersion_to_migration")
def _(d):
    e, m, o = d.eb(overflow=False), d.mb(), d.ab()
    return {"dispersion_matrix": d.irf([e, m, o], norm=2), "disp_true_energy_edges": e, "disp_migration_edges": m,
            "new_true_energy_edges": d.eb(overflow=False), "new_reco_energy_edges": d.eb(overflow=False)}


@op("psf_table", "irf.psf_table")
def _(d):
    return {"events": d.ev(), "true_energy_bins": d.eb(overflow=False), "source_offset_bins": d.ab("sab"), "fov_offset_bins": d.ab()}


@op("background_2d", "irf.background_2d")
def _(d):
    return {"events": d.ev(weight=1), "reco_energy_bins": d.eb(overflow=False), "fov_offset_bins": d.ab(),
            "t_obs": d.q([1.0, 50.0], d.r.choice(["hour", "s"]))}


@op("background_3d_lonlat", "irf.background_3d_lonlat")
def _(d):
    return {"events": d.ev(weight=1), "reco_energy_bins": d.eb(overflow=False), "fov_lon_bins": d.ab("lb"), "fov_lat_bins": d.ab("lb"),
            "t_obs": d.q([1.0, 50.0], d.r.choice(["hour", "s"]))}


# -- benchmarks
@op("angular_resolution", "benchmarks.angular_resolution")
def _(d):
    a = {"events": d.ev(), "energy_bins": d.eb()}
    d.maybe(a, "energy_type", d.v("true", "reco"))
    d.maybe(a, "quantile", d.v(0.5, 0.68, [0.25, 0.5, 0.68]), 0.6)
    return a


@op("energy_bias_resolution", "benchmarks.energy_bias_resolution")
def _(d, fail=0.0):
    a = {"events": d.ev(), "energy_bins": d.eb()}
    d.maybe(a, "energy_type", d.v("true", "reco"))
    d.maybe(a, "bias_function", d.fn("median", "mean", fail=fail), 0.9 if fail else 0.4)
    d.maybe(a, "resolution_function", d.fn("std", fail=fail), 0.9 if fail else 0.4)
    return a


@op("bias_from_dispersion", "benchmarks.energy_bias_resolution_from_energy_dispersion")
def _(d):
    e, m, o = d.eb(), d.mb(), d.ab()
    return {"energy_dispersion": d.irf([e, m, o]), "migration_bins": m}


@op("inter_quantile_distance", "benchmarks.energy_bias_resolution.inter_quantile_distance")
def _(d):
    return {"rel_error": d.plain([d.r.choice([3, 20])], lohi=[-1, 1])}


@op("energy_resolution_absolute_68", "benchmarks.energy_bias_resolution.energy_resolution_absolute_68")
def _(d):
    return {"rel_error": d.plain([d.r.choice([3, 20])], lohi=[-1, 1])}


# -- utils, coordinates
@op("is_scalar", "utils.is_scalar")
def _(d):
    return {"val": d.r.choice([d.q([1.0], "m"), d.eb(), d.v(1, [1, 2])])}


@op("calculate_theta", "utils.calculate_theta")
def _(d):
    ev = d.ev()
    if d.r.random() < 0.3:
        src = {"assumed_source_az": d.q([10.0, 80.0], "deg"), "assumed_source_alt": d.q([60.0], d.r.choice(["deg"]))}
    else:
        ev = d.evt()
        src = {"assumed_source_az": {"k": "col", "ev": ev, "name": "true_az"}, "assumed_source_alt": {"k": "col", "ev": ev, "name": "true_alt"}}
    return {"events": ev, **src}


for _f in ("offset", "position_angle", "lonlat"):
    @op("calculate_source_fov_" + _f, "utils.calculate_source_fov_" + _f)
    def _(d):
        return d.maybe({"events": d.ev()}, "prefix", d.v("true", "reco"))


for _f in ("lon_lat", "theta_phi"):
    @op("gadf_fov_coords_" + _f, "coordinates.gadf_fov_coords_" + _f)
    def _(d):
        ev = d.evt()
        p = d.r.choice(["true", "reco"])
        c = lambda n: {"k": "col", "ev": ev, "name": n}
        if d.r.random() < 0.3:
            pt = {"pointing_lon": d.q([10.0, 80.0], "deg"), "pointing_lat": d.q([60.0, 70.0], "deg")}
        else:
            pt = {"pointing_lon": c("pointing_az"), "pointing_lat": c("pointing_alt")}
        return {"lon": c(p + "_az"), "lat": c(p + "_alt"), **pt}


@op("check_histograms", "utils.check_histograms")
def _(d):
    b = d.pick("eb")
    return {"hist1": d.hist(b), "hist2": d.hist(b if d.r.random() < 0.7 else d.pick("eb"))}


@op("cone_solid_angle", "utils.cone_solid_angle")
def _(d):
    return {"angle": d.r.choice([d.ab(), d.q([0.5, 3.0], "deg")])}


@op("rectangle_solid_angle", "utils.rectangle_solid_angle")
def _(d):
    x, y = d.ab("lb"), d.ab("lb")
    return {"lon_low": {"k": "lo", "x": x}, "lon_high": {"k": "hi", "x": x},
            "lat_low": {"k": "q", "v": -1.0, "u": "deg"}, "lat_high": {"k": "q", "v": 2.0, "u": "deg"}}


@op("check_table", "utils.check_table")
def _(d):
    a = {"table": d.ev()}
    d.maybe(a, "required_columns", {"k": d.r.choice(["v", "set"]), "v": d.r.choice([["true_energy", "theta"], ["nope"], ["theta", "nope"]])}, 0.6)
    d.maybe(a, "required_units", {"k": "dict", "v": {"true_energy": {"k": "unit", "v": d.r.choice(["GeV", "deg"])}}}, 0.4)
    return a


# -- gammapy
@op("gammapy_aeff", "gammapy.create_effective_area_table_2d")
def _(d):
    e, o = d.eb(overflow=False), d.ab()
    return {"effective_area": d.irf([e, o], d.r.choice(["m2", "km2"])), "true_energy_bins": e, "fov_offset_bins": o}


@op("gammapy_psf", "gammapy.create_psf_3d")
def _(d):
    e, o, s = d.eb(overflow=False), d.ab(), d.ab("sab")
    return {"psf": d.irf([e, o, s], "1/sr"), "true_energy_bins": e, "source_offset_bins": s, "fov_offset_bins": o}


@op("gammapy_edisp", "gammapy.create_energy_dispersion_2d")
def _(d):
    e, m, o = d.eb(overflow=False), d.mb(), d.ab()
    return {"energy_dispersion": d.irf([e, m, o]), "true_energy_bins": e, "migration_bins": m, "fov_offset_bins": o}


# -- GADF
CARDS = {"TELESCOP": ["CTA", "HESS"], "INSTRUME": ["LST", "MST"], "OBS_ID": [1, 22], "HDUCLAS3": ["CUSTOM"], "RA_PNT": [83.6],
         "LO_THRES": [0.1], "MYFLAG": [True, False], "FILENAME": ["a/b c"]}


def _cards(d, a):
    for k in sorted(CARDS):
        if d.r.random() < 0.15:
            a[k] = {"k": "v", "v": d.r.choice(CARDS[k])}
    d.maybe(a, "extname", d.v("ONE", "TWO"), 0.3)
    return a


@op("create_aeff2d_hdu", "io.create_aeff2d_hdu")
def _(d):
    e, o = d.eb(overflow=False), d.ab()
    a = {"effective_area": d.irf([e, o], d.r.choice(["m2", "km2"])), "true_energy_bins": e, "fov_offset_bins": o}
    return _cards(d, d.maybe(a, "point_like", d.v(True, False)))


@op("create_psf_table_hdu", "io.create_psf_table_hdu")
def _(d):
    e, o, s = d.eb(overflow=False), d.ab(), d.ab("sab")
    return _cards(d, {"psf": d.irf([e, o, s], d.r.choice(["1/sr", "1/deg2"])), "true_energy_bins": e, "source_offset_bins": s, "fov_offset_bins": o})


@op("create_energy_dispersion_hdu", "io.create_energy_dispersion_hdu")
def _(d):
    e, m, o = d.eb(overflow=False), d.mb(), d.ab()
    a = {"energy_dispersion": d.irf([e, m, o], None), "true_energy_bins": e, "migration_bins": m, "fov_offset_bins": o}
    return _cards(d, d.maybe(a, "point_like", d.v(True, False)))


@op("create_background_2d_hdu", "io.create_background_2d_hdu")
def _(d):
    e, o = d.eb(overflow=False), d.ab()
    return _cards(d, {"background_2d": d.irf([e, o], "1/(MeV s sr)"), "reco_energy_bins": e, "fov_offset_bins": o})


@op("create_background_3d_hdu", "io.create_background_3d_hdu")
def _(d):
    e, x, y = d.eb(overflow=False), d.ab("lb"), d.ab("lb")
    return _cards(d, d.maybe({"background_3d": d.irf([e, x, y], "1/(MeV s sr)"), "reco_energy_bins": e, "fov_lon_bins": x, "fov_lat_bins": y},
                             "alignment", d.v("ALTAZ", "RADEC")))


@op("create_rad_max_hdu", "io.create_rad_max_hdu")
def _(d):
    e, o = d.eb(overflow=False), d.ab()
    return _cards(d, {"rad_max": d.irf([e, o], d.r.choice(["deg", "rad"])), "reco_energy_bins": e, "fov_offset_bins": o})


# -- interpolation
def no_position(d, t):
    """Now and then a target with an undefined coordinate."""
    if d.r.random() < 0.06:
        t = list(t)
        t[d.r.randrange(len(t))] = float("nan")
    return t


@op("estimator_query", "#estimator")
def _(d):
    s = d.pick("est")
    t = no_position(d, d.r.choice(gen.targets(s["grid"], gen.grid(s["grid"]), d.r)))
    return {"est": s, "target": {"k": "np", "v": t if d.r.random() < 0.3 else [t], "dtype": "f8"}}


@op("estimator_new", "#estimator_new")
def _(d):
    s = d.pick("est")
    if d.r.random() < 0.3:
        s = dict(s, seed=d.pick("seed"))
    t = d.r.choice(gen.targets(s["grid"], gen.grid(s["grid"]), d.r))
    return {"est": s, "target": {"k": "np", "v": [t], "dtype": "f8"}}


@op("interpolator_direct", "#direct")
def _(d):
    s = d.pick("est")
    which = "interp" if d.r.random() < 0.6 or s["extrap"] is None else "extrap"
    t = no_position(d, d.r.choice(gen.targets(s["grid"], gen.grid(s["grid"]), d.r)))
    return {"est": s, "which": {"k": "v", "v": which}, "target": {"k": "np", "v": [t], "dtype": "f8"},
            "norm": d.v("AREA", "AREA", "CONE_SOLID_ANGLE")}


@op("find_nearest_simplex", "#nearest_simplex")
def _(d):
    return {"points": {"k": "v", "v": [[0, 0], [20, 1], [2, 19], [21, 22], [40, 3]]},
            "target": {"k": "np", "v": [d.r.uniform(-20, 60), d.r.uniform(-20, 60)]}}


@op("get_bin_width", "#bin_width")
def _(d):
    x = d.r.random() < 0.5
    return {"edges": d.ab("sab") if x else d.mb(), "norm": {"k": "enum", "v": "CONE_SOLID_ANGLE" if x else "AREA"}}


HAS_FAIL = {n for n, f in GEN.items() if "fail" in f.__code__.co_varnames[: f.__code__.co_argcount]}
HEAVY = {"optimize_cuts": 0.35, "optimize_gh_cut": 0.35}
NAMES = sorted(GEN)
# objects that live on between calls
OFTEN = {"estimator_query": 0.08, "estimator_new": 0.05, "interpolator_direct": 0.03, "spectrum_call": 0.02,
         "create_histogram_table": 0.02, "spectrum_from_file": 0.02}


def draw(r, p, name=None, fail=0.0):
    """One random operation from the pool's inputs."""
    if name is None:
        k = r.random()
        for n in sorted(OFTEN):
            k -= OFTEN[n]
            if k < 0:
                name = n
                break
        while name is None:
            name = r.choice(NAMES)
            if name not in HEAVY or r.random() < HEAVY[name]:
                break
    d = Draw(r, p)
    a = GEN[name](d, fail) if name in HAS_FAIL and fail else GEN[name](d)
    return {"op": name, "a": a}


def vary(r, o):
    """The same operation with one detail changed."""
    o = copy.deepcopy(o)
    if o["op"] == "estimator_query" and r.random() < 0.6:
        # another question to the same object
        g = o["a"]["est"]["grid"]
        if r.random() < 0.3:
            t = gen.close_to(gen.grid(g), np.ravel(o["a"]["target"]["v"]), r)
        else:
            t = r.choice(gen.targets(g, gen.grid(g), r))
        if r.random() < 0.12:
            t = [float("nan")] + list(t)[1:]
        o["a"]["target"]["v"] = t if r.random() < 0.3 else [t]
        return o
    leaves = []

    def walk(x, path):
        if isinstance(x, dict):
            for k in sorted(x):
                if k in ("k", "ro", "view") or path[-1:] == ["grid"] and k != "seed" or k in ("nb", "dim"):
                    continue
                walk(x[k], path + [k])
        elif isinstance(x, list):
            for i, y in enumerate(x):
                walk(y, path + [i])
        elif isinstance(x, (int, float)) and not isinstance(x, bool) or x in ("C", "F", "deg", "rad", "TeV", "GeV", "f8", "f4"):
            leaves.append((path, x))

    walk(o["a"], [])
    if not leaves:
        return o
    # mostly the values, sometimes a shape
    seeds = [l for l in leaves if l[0][-1] in ("seed", "v", "norm", "index", "lo", "hi", "n", "emin", "emax", "vmax", "eref")]
    path, x = r.choice(seeds if seeds and r.random() < 0.75 else leaves)
    swap = {"C": "F", "F": "C", "deg": "rad", "rad": "deg", "TeV": "GeV", "GeV": "TeV", "f8": "f4", "f4": "f8"}
    if x in swap and isinstance(x, str):
        y = swap[x]
    elif path[-1] == "seed":
        y = r.randrange(1 << 30)
    elif path[-1] in ("n", "nb", "dim", "shape") or isinstance(x, int):
        y = x + 1 if path[-1] in ("fail_at",) or r.random() < 0.7 or x <= 1 else x - 1
    else:
        y = round(x * r.choice([1.1, 1.5, 0.9, 1.0001]), 6)
    t = o["a"]
    for k in path[:-1]:
        t = t[k]
    t[path[-1]] = y
    return o


def corrupt(r, o):
    """An operation with one argument that makes it fail (usually)."""
    o = copy.deepcopy(o)
    names = [k for k in sorted(o["a"]) if isinstance(o["a"][k], dict) and "k" in o["a"][k]
             and k not in ("self", "which", "norm", "points", "s", "spec")]
    if not names:
        return o
    k = r.choice(names)
    a = o["a"][k]
    if a["k"] == "subset" and r.random() < 0.7:
        a = o["a"][k] = a["ev"]
    if a["k"] == "events" and r.random() < 0.8:
        a["drop"] = r.sample(["true_energy", "reco_energy", "theta", "weight", "true_source_fov_offset", "gh_score",
                              "reco_source_fov_offset", "true_az", "pointing_alt", "true_source_fov_lon"], r.randint(1, 4))
        return o
    o["a"][k] = r.choice([
        {"k": "v", "v": None}, {"k": "q", "v": [1.0, 2.0, 3.0], "u": "kg"}, {"k": "np", "v": [[1.0, 2.0], [3.0, 4.0]]},
        {"k": "np", "v": []}, {"k": "v", "v": "nonsense"}, {"k": "np", "v": [3.0, 2.0, 1.0, 5.0]},
        {"k": "q", "v": [3.0, 2.0, 1.0], "u": "deg"}, {"k": "q", "v": [3.0, 2.0, 1.0], "u": "TeV"}, {"k": "q", "v": -1.0, "u": "deg"}])
    return o


# ------------------------------------------------------------------ preparing a call
class Call:
    """One prepared call: ``()`` performs it; ``args`` are the objects handed over."""

    def __init__(self, name, fn, args, callbacks):
        self.name, self.fn, self.args, self.callbacks = name, fn, args, callbacks

    def __call__(self):
        return self.fn(**self.args)


def _resolve(path):
    import importlib

    parts = path.split(".")
    # functions of pyirf.irf and pyirf.benchmarks shadow the modules of the same name
    if parts[0] in ("irf", "benchmarks") and len(parts) == 3:
        return getattr(importlib.import_module("pyirf." + ".".join(parts[:2])), parts[2])
    obj = importlib.import_module("pyirf." + parts[0])
    for p in parts[1:]:
        obj = getattr(obj, p)
    return obj


def _new_spectrum(spec, energy, world):
    return build_spectrum(spec, world)(energy)


def prepare(o, world):
    """Everything the call needs is built here, the call itself happens later."""
    try:
        return _prepare(o, world)
    except Exception as e:  # an argument that cannot be built: part of the outcome
        err = e

        def fail():
            raise err
        return Call(o["op"], fail, {}, [])


def _prepare(o, world):
    a = o["a"]
    f = FUNC[o["op"]]
    if f in ("#estimator", "#estimator_new", "#direct"):
        s = a["est"]
        target = world.arg(a["target"])
        if f == "#estimator":
            e, keep = world.estimator({"est": s})
            return Call(o["op"], lambda target: e(target), {"target": target}, [])
        pts, temp = _templates(s, world)
        if f == "#estimator_new":
            cls, args, kw = _estimator_call(s, pts, temp)
            names = _positional(cls)
            full = dict(zip(names, args))
            full.update(kw)

            def run(target, **full):
                return cls(**full)(target)
            return Call(o["op"], run, {"target": target, **full}, [])
        import pyirf.interpolation as I

        which = world.arg(a["which"])
        name = s[which]
        cls = getattr(I, name)
        param = s["kind"] in est.PARAM
        norm = getattr(I.PDFNormalization, world.arg(a["norm"])) if not param else None
        opts = dict(s["ikw" if which == "interp" else "ekw"])
        p2 = np.array(pts, float).reshape(len(pts), -1)
        if p2.shape[1] == 1:
            order = np.argsort(p2[:, 0])
            p2, temp = p2[order], temp[order]
        if param:
            def run(grid_points, params, target, opts):
                return cls(grid_points, params, **opts)(target)
            return Call(o["op"], run, {"grid_points": p2, "params": temp, "target": target, "opts": opts}, [])
        e = est.edges(s)
        if norm is not None and norm.name == "CONE_SOLID_ANGLE":
            e = u.Quantity(np.linspace(0, 1, s["nb"] + 1), u.deg)
        elif hasattr(e, "unit"):
            e = e.value

        def run(grid_points, bin_edges, binned_pdf, target, opts):
            return cls(grid_points, bin_edges, binned_pdf, normalization=norm, **opts)(target)
        return Call(o["op"], run, {"grid_points": p2, "bin_edges": e, "binned_pdf": temp, "target": target, "opts": opts}, [])
    args = {k: world.arg(v) for k, v in a.items()}
    cbs = [v for v in args.values() if isinstance(v, Callback)]
    if not f.startswith("#"):
        return Call(o["op"], _resolve(f), args, cbs)
    if f == "#spectrum":
        return Call(o["op"], lambda spectrum, energy: spectrum(energy), args, cbs)
    if f == "#spectrum_new":
        return Call(o["op"], lambda spec, energy: _new_spectrum(spec, energy, world), args, cbs)
    if f == "#spectrum_file":
        from pyirf.spectral import TableInterpolationSpectrum

        def run(path, energy, **kw):
            try:
                return TableInterpolationSpectrum.from_file(path, **kw)(energy)
            except MemoryError:
                raise
            except Exception as e:  # messages name the scratch directory
                raise RuntimeError(type(e).__name__) from None
        return Call(o["op"], run, args, cbs)
    if f == "#spectrum_object":
        return Call(o["op"], lambda spec: build_spectrum(spec, world), args, cbs)
    if f == "#integrate_cone":
        return Call(o["op"], lambda spectrum, inner, outer: spectrum.integrate_cone(inner, outer), args, cbs)
    if f == "#repr":
        return Call(o["op"], lambda obj: repr(obj) if type(obj).__repr__ is not object.__repr__ else "", args, cbs)
    if f == "#siminfo_new":
        return Call(o["op"], lambda s: gen.siminfo(s), args, cbs)
    if f.startswith("#si."):
        m = f[4:]

        def run(self, **kw):
            return getattr(self, m)(**kw)
        c = Call(o["op"], None, args, cbs)
        c.fn = lambda **kw: run(kw.pop("self"), **kw)
        return c
    if f == "#nearest_simplex":
        from scipy.spatial import Delaunay
        from pyirf.interpolation.utils import find_nearest_simplex

        tri = Delaunay(np.array(args["points"], float))
        return Call(o["op"], lambda points, target: find_nearest_simplex(tri, target), args, cbs)
    if f == "#bin_width":
        from pyirf.interpolation.utils import get_bin_width

        return Call(o["op"], lambda edges, norm: get_bin_width(edges, norm), args, cbs)
    raise KeyError(f)


def _templates(s, world):
    k = "T" + world.key({k: s[k] for k in sorted(s) if k not in ("interp", "extrap", "ikw", "ekw")})
    if k not in world.memo:
        world.memo[k] = est.templates(s)
    return world.memo[k]


def _positional(cls):
    return {"EffectiveAreaEstimator": ["grid_points", "effective_area"], "RadMaxEstimator": ["grid_points", "rad_max"],
            "EnergyDispersionEstimator": ["grid_points", "migra_bins", "energy_dispersion"],
            "PSFTableEstimator": ["grid_points", "source_offset_bins", "psf"],
            "ParametrizedComponentEstimator": ["grid_points", "params"],
            "DiscretePDFComponentEstimator": ["grid_points", "bin_edges", "binned_pdf"]}[cls.__name__]


def _estimator_call(s, pts, temp):
    """Class and arguments without calling the class."""
    import pyirf.interpolation as I

    name = {"aeff": "EffectiveAreaEstimator", "radmax": "RadMaxEstimator", "edisp": "EnergyDispersionEstimator",
            "psf": "PSFTableEstimator", "params": "ParametrizedComponentEstimator",
            "pdf": "DiscretePDFComponentEstimator"}[s["kind"]]
    keep = []
    est.build(s, pts, temp, keep=keep, call=False)
    args, kw = keep[0]
    return getattr(I, name), args, kw


def outcome(call, after=None):
    """Outcome of a call, also of one that raises something that is not an Exception.

    ``after`` runs as soon as the call ended, before its result is looked at.
    """
    try:
        r = call()
    except BaseException as e:  # noqa
        if after:
            after()
        return {"t": "X", "n": type(e).__name__, "msg": str(e)[:200]}, None
    if after:
        after()
    return {"t": "V", "v": snap.canon(r)}, r


def dry(ctx, o, scratch, count=True):
    """Outcome of the operation alone in a pristine process, and the steps it takes."""
    from .sched import Sim

    def body():
        c = prepare(o, World(scratch))
        if not count:
            return outcome(c)[0], 0
        box, steps = [], []
        sim = Sim(step_cap=3_000_000)
        t = sim.spawn(lambda: box.append(outcome(c, lambda: steps.append(t.steps))[0]))
        sim.run()
        return box[0], steps[0]

    return ctx.isolated(body)


def watch(calls):
    """Fingerprints of everything handed to these calls: [(object, name, fingerprint)]."""
    seen = {}
    for c in calls:
        for k, v in c.args.items():
            if not isinstance(v, Callback) and id(v) not in seen:
                seen[id(v)] = (v, f"{c.name}({k})", snap.fingerprint(v))
    return list(seen.values())


def changed(watched):
    for v, name, f in watched:
        d = snap.fp_diff(f, snap.fingerprint(v))
        if d:
            return f"{name}: {d}"
    return None
