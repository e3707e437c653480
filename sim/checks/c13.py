"""C13: every FITS HDU describes exactly the IRF it was created from."""
import calendar
import gc
import os
import re
import warnings

import numpy as np
import astropy.units as u
from astropy.io import fits

from .. import clock as simclock
from .. import gen
from .. import snapshot as snap
from ..disk import Disk
from ..sched import Sim
from .c06 import lockstep
from pyirf.io import gadf

ID = "C13"
QUICK = {"runs": 100000, "wall": 60}
THOROUGH = {"runs": 10**7, "wall": 1500}
DROPPABLE = ["steps", "calls", "decisions", "faults", "jumps", "cards", "edits", "writes"]
RULE = ("a run counts as distinct and non-trivial if at least one thread switch, interruption, failing call, clock jump, "
        "edit of a returned HDU or disk fault occurred and the combination of calls and places was not seen before")
REAL = ["pyirf.io.gadf", "pyirf.binning", "astropy.io.fits", "astropy.time"]
STUB = ["system clock and time zone", "the disk below the file writer", "thread scheduling"]
ASSUMPTIONS = ["values are compared after conversion to the documented units with the precision of their type",
               "HDUCLAS3 of a RAD_MAX_2D table is POINT-LIKE, the only value the specification knows"]

# kind: function, value argument and unit, value column, (edges argument, columns, unit) in the order of the value axes, classes
KINDS = {
    "aeff": ("create_aeff2d_hdu", "effective_area", "m2", "EFFAREA",
             [("true_energy_bins", "ENERG", "TeV"), ("fov_offset_bins", "THETA", "deg")], ("EFF_AREA", None, "AEFF_2D")),
    "edisp": ("create_energy_dispersion_hdu", "energy_dispersion", None, "MATRIX",
              [("true_energy_bins", "ENERG", "TeV"), ("migration_bins", "MIGRA", None), ("fov_offset_bins", "THETA", "deg")],
              ("EDISP", None, "EDISP_2D")),
    "psf": ("create_psf_table_hdu", "psf", "1/sr", "RPSF",
            [("true_energy_bins", "ENERG", "TeV"), ("fov_offset_bins", "THETA", "deg"), ("source_offset_bins", "RAD", "deg")],
            ("PSF", "FULL-ENCLOSURE", "PSF_TABLE")),
    "bkg2d": ("create_background_2d_hdu", "background_2d", "1/(MeV s sr)", "BKG",
              [("reco_energy_bins", "ENERG", "TeV"), ("fov_offset_bins", "THETA", "deg")], ("BKG", "FULL-ENCLOSURE", "BKG_2D")),
    "bkg3d": ("create_background_3d_hdu", "background_3d", "1/(MeV s sr)", "BKG",
              [("reco_energy_bins", "ENERG", "TeV"), ("fov_lon_bins", "DETX", "deg"), ("fov_lat_bins", "DETY", "deg")],
              ("BKG", "FULL-ENCLOSURE", "BKG_3D")),
    "radmax": ("create_rad_max_hdu", "rad_max", "deg", "RAD_MAX",
               [("reco_energy_bins", "ENERG", "TeV"), ("fov_offset_bins", "THETA", "deg")], ("RAD_MAX", "POINT-LIKE", "RAD_MAX_2D")),
}
EXTNAMES = {"aeff": "EFFECTIVE AREA", "edisp": "EDISP", "psf": "PSF", "bkg2d": "BACKGROUND", "bkg3d": "BACKGROUND", "radmax": "RAD_MAX"}
UNITS = {"m2": ["m2", "m2", "cm2", "km2"], "1/sr": ["1/sr", "1/sr", "1/deg2"], "1/(MeV s sr)": ["1/(MeV s sr)", "1/(TeV s sr)", "1/(GeV h deg2)"],
         "deg": ["deg", "deg", "rad", "arcmin"], "TeV": ["TeV", "TeV", "GeV", "MeV"]}
CARDS = {
    "TELESCOP": ["CTA-N", "H.E.S.S."], "INSTRUME": ["LST-1", "Northern Array"], "OBS_ID": [1, 4711], "RA_PNT": [83.63, -1.0],
    "LO_THRES": [0.02, 1e-3], "HI_THRES": [100.0], "MYFLAG": [True, False], "COMMENTS": ["a / b 'c'", ""], "VERSION": ["v1", "0.2"],
    "OBSERVER": ["x" * 60], "DSTYP1": [["a b", "with comment"]], "CREATOR": ["somebody else"], "TELLIST": ["1,2,3"],
    "LONGER_THAN_EIGHT": ["hierarch"], "telescop2": ["lower"],
}
TZS = ["UTC", "Europe/Berlin", "Asia/Kathmandu", "America/St_Johns", "XYZ-13:45", "Pacific/Kiritimati"]
TIMES = ["2026-11-19 12:00:00", "2024-02-29 23:59:58", "2025-12-31 23:59:59", "2016-12-31 23:59:57", "2021-03-28 00:59:58",
         "1999-12-31 23:30:00", "2038-01-19 03:14:05"]


# ------------------------------------------------------------------ inputs
def hdu_spec(r, kind=None):
    kind = kind or r.choice(sorted(KINDS))
    fn, arg, unit, col, axes, cls = KINDS[kind]
    same = r.random() < 0.25
    k = r.randint(1, 4)
    s = {
        "kind": kind, "seed": r.randrange(1 << 30), "n": [k if same else r.randint(1, 5) for _ in axes],
        "axunits": [None if a[2] is None else r.choice(UNITS[a[2]]) for a in axes],
        "unit": r.choice(UNITS[unit]) if unit else r.choice([None, None, "", "percent"]),
        "dtype": r.choice(["f8", "f8", "f4", ">f8", "i8"]), "order": r.choice("CCFS"),
        "special": r.random() < 0.15, "overflow": r.random() < 0.15,
        "extname": r.choice([None, None, "ALPHA", "BETA GAMMA", "bkg"]),
        "cards": [[c, r.choice(CARDS[c])] for c in sorted(CARDS) if r.random() < 0.2],
        "positional": r.random() < 0.4, "regular": r.random() < 0.4,
    }
    if kind in ("aeff", "edisp", "radmax"):
        s["point_like"] = r.choice([None, True, False])
    if kind == "bkg3d":
        s["alignment"] = r.choice([None, "ALTAZ", "RADEC"])
    if r.random() < 0.15:
        s["fail"] = r.choice(["unit", "shape", "card", "axunit", "alignment" if kind == "bkg3d" else "card"])
    return s


def build(s):
    """Arguments of the call and the plain numbers they stand for, in documented units."""
    fn, arg, unit, col, axes, cls = KINDS[s["kind"]]
    g = np.random.default_rng(s["seed"])
    edges, args = [], {}
    for (name, c, au), n, given in zip(axes, s["n"], s["axunits"]):
        if c == "ENERG":
            e = np.sort(10 ** g.uniform(-2, 2, n + 1))
            if s["overflow"]:
                e[-1] = np.inf
        elif c == "MIGRA":
            e = np.sort(g.uniform(0.1, 5, n + 1))
        elif c in ("DETX", "DETY"):
            e = np.sort(g.uniform(-6, 6, n + 1))
        else:
            e = np.sort(g.uniform(0, 6, n + 1))
            if g.random() < 0.5:
                e[0] = 0
        if s.get("regular"):
            # usual binnings, some of them with one edge off
            lo, hi = e[0], np.where(np.isfinite(e), e, 100.0).max()
            log = c == "ENERG" or (c == "MIGRA" and g.random() < 0.5)
            reg = np.linspace(np.log(lo), np.log(hi), n + 1) if log else np.linspace(lo, hi, n + 1)
            if g.random() < 0.6:
                reg = gen.nearly(reg, g)
            reg = np.exp(reg) if log and g.random() < 0.8 else np.linspace(lo, hi, n + 1) if log else reg
            e = np.where(np.isfinite(e), reg, e)
        edges.append(e)
        args[name] = e if au is None else u.Quantity(e, au).to(given)
    v = g.uniform(0, 100, tuple(s["n"]))
    dt = s["dtype"]
    if dt == "i8":
        v = np.round(v)
    if s["special"] and dt != "i8":
        v[g.random(v.shape) < 0.2] = 0
        v[g.random(v.shape) < 0.1] = np.nan
    given = v.astype(dt)
    if s["order"] == "F":
        given = np.asfortranarray(given)
    elif s["order"] == "S":
        wide = np.zeros((2 * given.shape[0], *given.shape[1:]), dtype=dt)
        wide[::2] = given
        given = wide[::2]
    if s["unit"] is None:
        values = v.copy()
    else:
        given = u.Quantity(given, s["unit"]) if dt == "i8" else u.Quantity(given, s["unit"], copy=False)
        values = v * u.Unit(s["unit"]).to(unit or "")
    args[arg] = given
    if s["kind"] == "edisp":
        order = ["energy_dispersion", "true_energy_bins", "migration_bins", "fov_offset_bins"]
    elif s["kind"] == "psf":
        order = ["psf", "true_energy_bins", "source_offset_bins", "fov_offset_bins"]
    else:
        order = [arg] + [a[0] for a in axes]
    args = {k: args[k] for k in order}
    kw = {}
    if s.get("point_like") is not None:
        kw["point_like"] = s["point_like"]
    if s.get("alignment") is not None:
        kw["alignment"] = s["alignment"]
    if s["extname"] is not None:
        kw["extname"] = s["extname"]
    for c, x in s["cards"]:
        kw[c] = tuple(x) if isinstance(x, list) else x
    fail = s.get("fail")
    if fail == "unit":
        args[arg] = u.Quantity(np.ones(s["n"]), "kg")
    elif fail == "shape":
        args[arg] = args[arg][..., np.newaxis][:0] if s["n"][0] else args[arg]
        args[axes[0][0]] = u.Quantity(3.0, "TeV")
    elif fail == "axunit":
        args[axes[0][0]] = np.arange(3.0) * u.kg
    elif fail == "card":
        kw["ZZCARD"] = object()
    elif fail == "alignment":
        kw["alignment"] = "GALACTIC"
    return args, kw, edges, values


def invoke(s, built):
    args, kw, _, _ = built
    f = getattr(gadf, KINDS[s["kind"]][0])
    if s["positional"]:
        return f(*args.values(), **kw)
    return f(**args, **kw)


# ------------------------------------------------------------------ the independent description
def describe_hdu(s, built):
    fn, arg, unit, col, axes, cls = KINDS[s["kind"]]
    _, kw, edges, values = built
    header = {"HDUCLASS": "GADF", "HDUDOC": "https://github.com/open-gamma-ray-astro/gamma-astro-data-formats", "HDUVERS": "0.2",
              "HDUCLAS1": "RESPONSE", "HDUCLAS2": cls[0], "HDUCLAS4": cls[2],
              "HDUCLAS3": cls[1] or ("FULL-ENCLOSURE" if s.get("point_like") is False else "POINT-LIKE")}
    if s["kind"] == "bkg3d":
        header["FOVALIGN"] = s.get("alignment") or "ALTAZ"
    columns = {}
    # GADF order of axes: the order of the columns, fastest first
    order = list(range(len(axes)))
    for i in order:
        c, au = axes[i][1], axes[i][2]
        columns[c + "_LO"] = (edges[i][np.newaxis, :-1], au)
        columns[c + "_HI"] = (edges[i][np.newaxis, 1:], au)
    columns[col] = (values.T[np.newaxis], unit)
    header[f"CREF{len(columns)}"] = "(" + ",".join(f"{axes[i][1]}_LO:{axes[i][1]}_HI" for i in order) + ")"
    cards = {}
    for c, x in s["cards"]:
        cards[c.upper()] = x[0] if isinstance(x, list) else x
    header["EXTNAME"] = s["extname"] if s["extname"] is not None else EXTNAMES[s["kind"]]
    header.update(cards)
    return header, columns, cards


STRUCT = re.compile(r"^(XTENSION|BITPIX|NAXIS\d*|PCOUNT|GCOUNT|TFIELDS|EXTNAME|EXTVER|(TTYPE|TFORM|TUNIT|TDIM|TNULL)\d+)$")


def parse_date(text):
    m = re.match(r"^(\d{4})-(\d\d)-(\d\d)[T ](\d\d):(\d\d):(\d\d)(\.\d*)?Z?$", str(text))
    if not m:
        return None
    y, mo, d, h, mi, sec = map(int, m.groups()[:6])
    return calendar.timegm((y, mo, d, h, mi, sec)) + float("0" + (m.group(7) or ".0"))


def wrong(hdu, s, built, times):
    """None or what is wrong with this HDU."""
    header, columns, cards = describe_hdu(s, built)
    got = hdu.header
    for k, v in header.items():
        if k not in got:
            return f"header card {k} missing"
        x = got[k]
        same = x == v if type(x) is type(v) else (float(x) == float(v) if isinstance(x, (int, float)) and isinstance(v, (int, float)) else False)
        if k == "EXTNAME":
            same = str(x).upper() == str(v).upper()
        if not same:
            return f"header card {k} is {x!r}, not {v!r}"
    if "CREATOR" not in cards and "pyirf" not in str(got.get("CREATOR")):
        return f"CREATOR {got.get('CREATOR')!r}"
    if hdu.name.upper() != str(header["EXTNAME"]).upper():
        return f"name {hdu.name}"
    for c, x in s["cards"]:
        if isinstance(x, list) and got.comments[c] != x[1]:
            return f"comment of card {c}"
    other = {c.upper() for c in CARDS} | {"ZZCARD", "FOVALIGN", "EDITED"}
    for k in got:
        if k in header or k == "CREATOR":
            continue
        if k in other or k.startswith("CREF"):
            return f"card {k} of another HDU"
    t = parse_date(got.get("DATE"))
    if t is None:
        return f"DATE {got.get('DATE')!r} is not a date"
    if not any(abs(t - x) <= 1.0 for x in times):
        return f"DATE {got.get('DATE')!r} is not the time of the call, {times[0]}"
    names = hdu.columns.names
    if set(names) != set(columns) or names[-1] != list(columns)[-1]:
        return f"columns {names}"
    if len(hdu.data) != 1:
        return f"{len(hdu.data)} rows"
    for k, (v, unit) in columns.items():
        gu = u.Unit(hdu.columns[k].unit or "")
        if gu != u.Unit(unit or ""):
            return f"unit of column {k} is {gu}"
        x = np.asarray(hdu.data[k])
        if x.shape != v.shape:
            return f"shape of column {k} is {x.shape}, not {v.shape}"
        rtol = 1e-6 if x.dtype.itemsize == 4 or s["dtype"] == "f4" else 1e-12
        if not np.allclose(x.astype(float), v, rtol=rtol, atol=0, equal_nan=True):
            return f"values of column {k}"
    return None


# ------------------------------------------------------------------ plan
def plan(r, tier):
    kind = r.choice([None, None, r.choice(sorted(KINDS))])
    pool = [hdu_spec(r, kind if r.random() < 0.6 else None) for _ in range(r.randint(1, 4))]
    steps = []
    for _ in range(r.choice([1, 2, 3, 5])):
        nt = r.choice([1, 1, 2, 3])
        calls = []
        for _ in range(nt):
            s = r.choice(pool)
            if r.random() < 0.4:
                # same inputs, other cards, name or flags
                n = hdu_spec(r, s["kind"])
                s = {**s, **{k: n[k] for k in ("cards", "extname", "point_like", "alignment", "positional") if k in n}}
            calls.append({"hdu": s, "at": None, "how": None})
        st = {"calls": calls, "decisions": [], "jumps": [], "edits": [], "pause": r.choice([2.5, 60.0, 86400.0])}
        if nt > 1:
            st["decisions"] = [[int(10 ** r.uniform(0, 1.6)), r.randrange(3)] for _ in range(r.choice([2, 8, 30]))]
            if r.random() < 0.3:
                st["rest"], st["decisions"] = lockstep(r)
        if r.random() < 0.3:
            c = r.choice(calls)
            c["at"] = r.randint(1, 45)
            c["how"] = r.choice(["KeyboardInterrupt", "MemoryError", "SystemExit", "SimCrash"])
        for _ in range(r.choice([0, 0, 1, 2])):
            st["jumps"].append({"n": r.randrange(4), "dt": r.choice([-86400.0, -3600.0, 1800.0, 3600.0, 86400.0, 31536000.0]) + round(r.uniform(-50, 50), 3)})
        for _ in range(r.choice([0, 0, 1, 1])):
            st["edits"].append({"h": r.randrange(8), "what": r.choice(["header", "data", "name", "date"])})
        steps.append(st)
    writes = []
    for _ in range(r.choice([0, 1, 1, 2])):
        f = {"space": None, "faults": [], "only": r.choice([None, None, 1])}
        k = r.random()
        if k < 0.5:
            f["space"] = int(r.uniform(0, 1) * 2880 * 12)
        elif k < 0.8:
            f["faults"] = [{"op": int(10 ** r.uniform(0, 1.3)), "k": r.choice(["eio", "short"])} for _ in range(r.randint(1, 3))]
        writes.append(f)
    return {"tz": r.choice(TZS), "t0": r.choice(TIMES), "steps": steps, "writes": writes, "fresh_arrays": r.random() < 0.3}


# ------------------------------------------------------------------ run
def run(plan, ctx):
    warnings.simplefilter("ignore")
    t0 = parse_date(plan["t0"])
    clk = simclock.Clock(t0, plan["tz"])
    simclock.install(clk)
    ctx.shape(plan["tz"])
    cache = {}

    def built(s):
        k = repr({x: s[x] for x in ("kind", "seed", "n", "axunits", "unit", "dtype", "order", "special", "overflow", "regular")})
        if plan["fresh_arrays"] or s.get("fail") or k not in cache:
            cache[k] = build(s)
        args, _, edges, values = cache[k]
        if s.get("fail"):
            del cache[k]
        # the arrays are shared between the calls, the options are this call's
        return args, build(s)[1], edges, values

    made = []
    edited = set()
    before = snap.process_state()
    for k, st in enumerate(plan["steps"]):
        sim = Sim(st["decisions"], step_cap=500_000, rest=st.get("rest"))
        clk.t += st["pause"]
        clk.arm({j["n"]: j["dt"] for j in st["jumps"]})
        todo = []
        for c in st["calls"]:
            s = c["hdu"]
            b = built(s)
            t = sim.spawn(lambda s=s, b=b: invoke(s, b))
            if c["at"] is not None:
                sim.interrupt(t, c["at"], c["how"])
            todo.append((c, b, t))
        sim.run()
        ctx.add_sim(sim)
        if len(clk.jumps) < len(st["jumps"]):
            ctx.fault("clock_jump")
        for c, b, t in todo:
            s = c["hdu"]
            ctx.units += 1
            ctx.shape(s["kind"], s.get("fail"), c["how"])
            ctx.note(k, s["kind"], type(t.exc).__name__)
            if t.exc is not None:
                if s.get("fail"):
                    ctx.fault("call_fails_" + s["fail"])
                    ctx.probe("raises " + type(t.exc).__name__)
                    continue
                if c["at"] is not None and type(t.exc).__name__ == c["how"]:
                    continue
                ctx.violate("call_raises", f"step {k} {s['kind']}: {type(t.exc).__name__}: {t.exc}")
                return
            if s.get("fail"):
                # accepted after all: nothing is promised about the result
                ctx.probe("accepted " + s["fail"])
                continue
            ctx.probe("created " + s["kind"])
            made.append((t.result, s, b, list(clk.seen)))
        for i, (h, s, b, times) in enumerate(made):
            if i in edited:
                continue
            w = wrong(h, s, b, times)
            if w:
                ctx.violate("wrong_hdu", f"after step {k}, HDU {i} ({s['kind']}): {w}")
                return
        d = snap.state_diff(before, snap.process_state())
        if d:
            ctx.violate("process_state", f"after step {k}: {d[0]}")
            return
        for e in st["edits"]:
            # the caller changes an HDU it got
            if not made:
                continue
            i = e["h"] % len(made)
            h = made[i][0]
            ctx.fault("returned_hdu_edited")
            edited.add(i)
            if e["what"] == "header":
                h.header["EDITED"] = 1
                h.header["HDUCLAS1"] = "EDITED"
                h.header["HDUVERS"] = "EDITED"
            elif e["what"] == "date":
                h.header["DATE"] = "EDITED"
                h.header["CREATOR"] = "EDITED"
            elif e["what"] == "name":
                h.name = "EDITED"
            else:
                for n in h.columns.names:
                    h.data[n][...] *= 3
    ctx.sim_time += abs(clk.t - t0)
    # -- writing, with a failing disk, and again without
    keep = [(i, m) for i, m in enumerate(made) if i not in edited]
    if not keep or not plan["writes"]:
        return
    path = os.path.join(ctx.scratch, "irf.fits")
    with Disk(ctx.scratch, ctx) as disk:
        for w in [*plan["writes"], None]:
            disk.reset(w["faults"] if w else ())
            if w and w["space"] is not None:
                disk.space = w["space"]
            sel = keep if not w or w["only"] is None else keep[:1]
            clk.arm()
            try:
                if w and w["only"]:
                    sel[0][1][0].writeto(path, overwrite=True)
                else:
                    fits.HDUList([fits.PrimaryHDU(), *[m[0] for _, m in sel]]).writeto(path, overwrite=True)
            except OSError as e:
                if w is None:
                    raise
                ctx.probe("write fails")
                ctx.note("write", type(e).__name__)
                e = None
                gc.collect()
            for i, (h, s, b, times) in keep:
                x = wrong(h, s, b, times)
                if x:
                    ctx.violate("wrong_hdu", f"after writing, HDU {i} ({s['kind']}): {x}")
                    return
    with fits.open(path, memmap=False) as f:
        if len(f) != 1 + len(keep):
            ctx.violate("file_differs", f"{len(f)} HDUs instead of {1 + len(keep)}")
            return
        for h, (i, (_, s, b, times)) in zip(f[1:], keep):
            x = wrong(h, s, b, times)
            ctx.units += 1
            if x:
                ctx.violate("file_differs", f"HDU {i} ({s['kind']}) read back: {x}")
                return
            ctx.probe("read back")


def describe(plan):
    return {"tz": plan["tz"], "steps": [{"calls": [c["hdu"]["kind"] for c in s["calls"]], "edits": s["edits"],
                                         "jumps": s["jumps"]} for s in plan["steps"]], "writes": plan["writes"]}
