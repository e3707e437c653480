"""C12: reading an EventDisplay file is all-or-nothing."""
import gc
import gzip
import io
import os
import pathlib
import warnings

import numpy as np
import astropy.units as u
from astropy.io import fits
from astropy.table import Table

from .. import gen
from .. import snapshot as snap
from ..disk import Disk
from ..sched import Sim
from .c06 import lockstep
from pyirf.io import eventdisplay as ed

ID = "C12"
QUICK = {"runs": 100000, "wall": 70}
THOROUGH = {"runs": 10**7, "wall": 1500}
DROPPABLE = ["steps", "faults", "replace", "calls", "decisions"]
RULE = ("a run counts as distinct and non-trivial if at least one disk fault, replacement of the file, truncation, "
        "interruption or thread switch fired and the combination of file versions and places was not seen before")
REAL = ["pyirf.io.eventdisplay", "pyirf.simulations", "astropy.io.fits", "astropy.table"]
STUB = ["the disk below the file: opens, reads, errors, short reads, replacement", "thread scheduling"]
ASSUMPTIONS = ["another process replaces the file atomically (rename), never rewrites it in place",
               "bit errors that the disk does not report are out of scope"]

# documented names of the columns and of those of the file
COLUMNS = {
    "OBS_ID": "obs_id", "EVENT_ID": "event_id", "MC_ENERGY": "true_energy", "ENERGY": "reco_energy",
    "MC_ALT": "true_alt", "MC_AZ": "true_az", "PNT_ALT": "pointing_alt", "PNT_AZ": "pointing_az",
    "ALT": "reco_alt", "AZ": "reco_az", "GH_MVA": "gh_score", "MULTIP": "multiplicity",
}
UNITS = {"MC_ENERGY": "TeV", "ENERGY": "TeV", "MC_ALT": "deg", "MC_AZ": "deg", "PNT_ALT": "deg",
         "PNT_AZ": "deg", "ALT": "deg", "AZ": "deg"}
EXTRA = {"XOFF": "deg", "CORE_X": "m", "NIMAGES": None, "MC_XOFF": "deg", "HIL_MSW": None}


# ------------------------------------------------------------------ files
def version_spec(r):
    return {
        "seed": r.randrange(1 << 30), "n": r.choice([0, 1, 2, 5, 30, 30, 200, 700]),
        "pointing": r.choice(["steps", "steps", "close", "close", "wrap", "edges", "track"]),
        "runs": r.randint(1, 4), "points": r.randint(1, 3), "hist": r.randint(1, 40),
        "order": r.sample(["EVENTS", "SIMULATED EVENTS", "RUNHEADER", "GTI"], r.choice([4, 4, 4])),
        "gti": r.random() < 0.6, "columns": r.choice(["given", "shuffled"]),
        "extra": r.sample(sorted(EXTRA), r.randint(0, 3)), "units": r.random() < 0.3,
        "ftype": r.choice(["E", "E", "D"]), "log_n": r.choice([3, 6, 6, 9]),
    }


def pointings(s, alts, k, n):
    """Telescope pointing of every event."""
    mode = s.get("pointing", "steps")
    if mode == "steps":
        return alts[k], alts[k] * 3
    g = np.random.default_rng(s["seed"] + 1)
    alt, az = round(float(g.uniform(20, 80)), 2), round(float(g.uniform(0, 360)), 2)
    d = 10 ** g.uniform(-3, 0.5)
    if mode == "track":
        t = np.arange(n) // g.integers(1, 30)
        return alt + t * d / 10, (az + t * d / 3) % 360
    az = {"close": az, "wrap": 0.0, "edges": 180.0}[mode]
    i, j = g.integers(0, s["points"], n), g.integers(0, s["points"], n)
    if mode == "wrap":
        return alt + 0 * i, (az + (i - 1) * d) % 360
    return alt + i * d * g.integers(0, 2), az + (j - 1) * d


def content(s):
    """Independent description of a version: columns, units, simulation info."""
    g = np.random.default_rng(s["seed"])
    n = s["n"]
    f = ">f4" if s["ftype"] == "E" else ">f8"
    runs = 1000 + g.permutation(9000)[:s["runs"]]
    alts = np.round(g.uniform(20, 80, s["points"]), 1)
    k = g.integers(0, s["points"], n)
    palt, paz = pointings(s, alts, k, n)
    e = 10 ** g.uniform(-2, 2, n)
    c = {
        "OBS_ID": runs[g.integers(0, len(runs), n)].astype(">i4"), "EVENT_ID": g.permutation(10 * n + 1)[:n].astype(">i4"),
        "MC_ENERGY": e.astype(f), "ENERGY": (e * g.normal(1, 0.1, n)).astype(f),
        "MC_ALT": g.uniform(20, 80, n).astype(f), "MC_AZ": g.uniform(0, 360, n).astype(f),
        "PNT_ALT": palt.astype(f), "PNT_AZ": paz.astype(f),
        "ALT": g.uniform(20, 80, n).astype(f), "AZ": g.uniform(0, 360, n).astype(f),
        "GH_MVA": g.uniform(-1, 1, n).astype(f), "MULTIP": g.integers(2, 9, n).astype(">i4"),
    }
    for x in s["extra"]:
        c[x] = g.normal(0, 1, n).astype(f)
    names = list(c)
    if s["columns"] == "shuffled":
        g.shuffle(names)
    c = {x: c[x] for x in names}
    hist = g.integers(0, 10**s.get("log_n", 6), s["hist"]).astype(">f8" if g.random() < 0.5 else ">i8")
    head = {
        "num_use": int(g.integers(1, 20)), "num_showers": int(g.integers(100, 100000)),
        "E_range": np.round([g.uniform(0.003, 0.1), g.uniform(30, 330)], 4),
        "core_range": np.round([0, g.uniform(300, 2000)], 2), "spectral_index": round(float(g.uniform(-3, -1.5)), 3),
        "viewcone": np.round([g.uniform(0, 1), g.uniform(2, 10)], 2),
    }
    return c, hist, head


def file_bytes(s):
    c, hist, head = content(s)
    for x in s.get("drop", []):
        c.pop(x, None)
        head.pop(x, None)
    hdus = {}
    cols = [fits.Column(name=k, array=v, format={"f4": "E", "f8": "D", "i4": "J"}[v.dtype.str[1:]],
                        unit=UNITS.get(k) or EXTRA.get(k)) for k, v in c.items()]
    hdus["EVENTS"] = fits.BinTableHDU.from_columns(cols, name="EVENTS")
    hdus["EVENTS"].header["TELESCOP"] = "CTA"
    h = Table()
    h["MC_ENERG_LO"] = np.arange(len(hist), dtype=float)
    h["MC_ENERG_HI"] = np.arange(len(hist), dtype=float) + 1
    h["EVENTS"] = hist
    hdus["SIMULATED EVENTS"] = fits.BinTableHDU(h, name="SIMULATED EVENTS")
    t = Table()
    t["runnumber"] = [s["seed"] % 1000]
    for k, v in head.items():
        t[k] = np.array([v])
    if s["units"]:
        for k, scale, unit in (("E_range", 1e3, "GeV"), ("core_range", 1, "m"), ("viewcone", 1, "deg")):
            if k in t.colnames:
                t[k] = t[k] * scale
                t[k].unit = unit
    hdus["RUNHEADER"] = fits.BinTableHDU(t, name="RUNHEADER")
    g = Table()
    g["START"], g["STOP"] = [[0.0], [1800.0]]
    hdus["GTI"] = fits.BinTableHDU(g, name="GTI")
    out = io.BytesIO()
    order = [x for x in s["order"] if x != "GTI" or s["gti"]]
    fits.HDUList([fits.PrimaryHDU(), *[hdus[x] for x in order]]).writeto(out)
    return out.getvalue()


def expected(s, use_histogram):
    c, hist, head = content(s)
    ev = {COLUMNS.get(k, k): (v, UNITS.get(k) or EXTRA.get(k)) for k, v in c.items()}
    if use_histogram:
        n = int(hist.sum())
    else:
        n = len(set(zip(c["OBS_ID"].tolist(), c["PNT_AZ"].tolist(), c["PNT_ALT"].tolist()))) * head["num_use"] * head["num_showers"]
    return ev, {"n_showers": (n, None), "energy_min": (head["E_range"][0], "TeV"), "energy_max": (head["E_range"][1], "TeV"),
                "max_impact": (head["core_range"][1], "m"), "spectral_index": (head["spectral_index"], None),
                "viewcone_min": (head["viewcone"][0], "deg"), "viewcone_max": (head["viewcone"][1], "deg")}


def mismatch(result, s, use_histogram):
    """None if the result is exactly this version of the file."""
    events, info = result
    ev, si = expected(s, use_histogram)
    if set(events.colnames) != set(ev):
        return f"columns {sorted(set(events.colnames) ^ set(ev))}"
    for k, (v, unit) in ev.items():
        col = events[k]
        if unit is not None:
            if getattr(col, "unit", None) is None:
                return f"column {k} has no unit"
            col = u.Quantity(col).to_value(unit)
        col = np.asarray(col)
        if len(col) != len(v):
            return f"{len(col)} of {len(v)} events"
        rtol = 1e-13 if v.dtype.itemsize == 8 else 2e-7
        if not np.allclose(col.astype(float), v.astype(float), rtol=rtol, atol=0):
            return f"values of column {k}"
    for k, (v, unit) in si.items():
        x = getattr(info, k)
        if unit is not None:
            x = u.Quantity(x).to_value(unit)
        if not abs(float(x) - float(v)) <= (0 if k == "n_showers" else 1e-12) * abs(float(v)):
            return f"simulation info {k} {x} instead of {v}"
    return None


# ------------------------------------------------------------------ plan
def plan(r, tier):
    versions = [version_spec(r) for _ in range(r.choice([1, 2, 2, 3]))]
    gz = r.random() < 0.2
    for v in versions[1:]:
        if r.random() < 0.4:
            # the same file except for some of the tables
            v.update({k: versions[0][k] for k in ("order", "gti", "columns", "extra", "units", "ftype", "hist")})
    damage = []
    for v in versions:
        if r.random() < 0.3:
            damage.append({"k": "trunc", "at": round(r.random(), 4)})
        elif r.random() < 0.06:
            damage.append({"k": "missing", "hdu": r.choice(["EVENTS", "SIMULATED EVENTS", "RUNHEADER"])})
        elif r.random() < 0.1:
            damage.append({"k": "column", "drop": r.choice([*sorted(COLUMNS), "num_use", "num_showers", "E_range", "core_range",
                                                            "spectral_index", "viewcone"])})
        elif r.random() < 0.04:
            damage.append({"k": "empty"})
        else:
            damage.append(None)
    steps = []
    cur = r.randrange(len(versions))
    for _ in range(r.choice([1, 2, 3, 5, 8])):
        nthreads = r.choice([1, 1, 1, 2, 3])
        s = {"version": r.randrange(len(versions)),
             "calls": [{"hist": r.choice([True, True, False, None]), "path": r.choice(["str", "path"]), "how": None, "at": None}
                       for _ in range(nthreads)],
             "faults": [], "replace": [], "decisions": []}
        if r.random() < 0.6:
            for _ in range(r.choice([1, 1, 2])):
                s["faults"].append({"op": int(10 ** r.uniform(0, 1.9)) - 1, "k": r.choice(["eio", "eio", "short", "short", "eof"])})
        if r.random() < 0.15:
            s["faults"] += [{"op": i, "k": "short"} for i in range(60)]
        if len(versions) > 1 and r.random() < 0.7:
            for _ in range(r.choice([1, 1, 2, 3])):
                s["replace"].append({"op": int(10 ** r.uniform(0, 1.7)) - 1, "to": r.randrange(len(versions)),
                                     "on": r.choice(["disk", "disk", "line"])})
        if len(versions) > 1 and r.random() < 0.25:
            # the reading fails because the file is exchanged at that time
            i = r.choice([r.randrange(16), r.randrange(6, 14), int(10 ** r.uniform(0.3, 1.5)) - 1])
            s["faults"] = [{"op": i, "k": r.choice(["eio", "eio", "eio", "eof"])}]
            s["replace"] = [{"op": i + r.choice([0, 0, 1, 2]), "to": r.randrange(len(versions)), "on": "disk"}]
        if r.random() < 0.35:
            c = r.choice(s["calls"])
            c["at"] = r.randint(1, 40)
            c["how"] = r.choice(["KeyboardInterrupt", "MemoryError", "SystemExit", "SimCrash"])
        if nthreads > 1:
            s["decisions"] = [[int(10 ** r.uniform(0, 1.6)), r.randrange(3)] for _ in range(r.choice([2, 8, 30]))]
            if r.random() < 0.3:
                s["rest"], s["decisions"] = lockstep(r)
        steps.append(s)
    return {"versions": versions, "damage": damage, "gz": gz, "steps": steps}


def stored(plan):
    """The bytes of every version and whether they are complete."""
    out = []
    for s, d in zip(plan["versions"], plan["damage"]):
        s2 = s
        if d and d["k"] == "missing":
            s2 = {**s, "order": [x for x in s["order"] if x != d["hdu"]]}
        elif d and d["k"] == "column":
            s2 = {**s, "drop": [d["drop"]]}
        b = file_bytes(s2)
        if plan["gz"]:
            b = gzip.compress(b, 1, mtime=0)
        if d and d["k"] == "trunc":
            b = b[:int(len(b) * d["at"])]
        elif d and d["k"] == "empty":
            b = b""
        out.append((b, d is None))
    return out


# ------------------------------------------------------------------ run
def run(plan, ctx):
    warnings.simplefilter("ignore")
    files = stored(plan)
    path = os.path.join(ctx.scratch, "events.fits" + (".gz" if plan["gz"] else ""))
    disk = Disk(ctx.scratch, ctx)
    current = [None]
    seq = [0]

    def put(v):
        """Another process replaces the file."""
        seq[0] += 1
        tmp = os.path.join(ctx.scratch, f".new{seq[0]}")
        fd = os.open(tmp, os.O_WRONLY | os.O_CREAT, 0o644)
        os.write(fd, files[v][0])
        os.close(fd)
        os.rename(tmp, path)
        current[0] = v
        for w in windows:
            w.add(v)

    windows = []
    kept = []
    before = snap.process_state()
    with disk:
        for k, s in enumerate([*plan["steps"], None]):
            last = s is None
            if last:
                # the faults are over: progress is owed
                good = [v for v in range(len(files)) if files[v][1]]
                if not good:
                    break
                s = {"version": good[0], "calls": [{"hist": True, "path": "str", "how": None, "at": None}],
                     "faults": [], "replace": [], "decisions": []}
            put(s["version"])
            if plan["damage"][s["version"]]:
                ctx.fault("file_" + plan["damage"][s["version"]]["k"])
            nfaults = sum(ctx.faults.values())
            replaced = [0]

            def replace(x):
                ctx.fault("file_replaced")
                ctx.shape("replace", x["op"], x["to"])
                if plan["damage"][x["to"]]:
                    ctx.fault("file_" + plan["damage"][x["to"]]["k"])
                put(x["to"])

            disk.reset(s["faults"], {x["op"]: (lambda x=x: replace(x)) for x in s["replace"] if x["on"] == "disk"})
            sim = Sim(s["decisions"], step_cap=3_000_000, rest=s.get("rest"))
            pending = sorted((x for x in s["replace"] if x["on"] == "line"), key=lambda x: x["op"])

            def call(c, w):
                def fn():
                    windows.append(w)
                    w.add(current[0])
                    arg = path if c["path"] == "str" else pathlib.Path(path)
                    try:
                        if c["hist"] is None:
                            return ed.read_eventdisplay_fits(arg)
                        return ed.read_eventdisplay_fits(arg, use_histogram=c["hist"])
                    finally:
                        windows[:] = [x for x in windows if x is not w]
                return fn

            calls = []
            for c in s["calls"]:
                w = set()
                t = sim.spawn(call(c, w))
                if c["at"] is not None:
                    sim.interrupt(t, c["at"], c["how"])
                calls.append((c, w, t))
            orig_step = sim.step

            def step(code, where):
                while pending and sim.steps >= pending[0]["op"]:
                    replace(pending.pop(0))
                return orig_step(code, where)

            sim.step = step
            sim.run()
            ctx.add_sim(sim)
            quiet = sum(ctx.faults.values()) - sim.switches == nfaults
            for c, w, t in calls:
                t.fn = None
                ctx.units += 1
                use = c["hist"] is not False
                ctx.note(k, sorted(w), type(t.exc).__name__)
                if t.exc is not None:
                    ctx.probe("raises " + type(t.exc).__name__)
                    if quiet and files[s["version"]][1]:
                        ctx.violate("good_file_not_read", f"step {k}: {type(t.exc).__name__}: {t.exc}")
                        return
                    t.exc = None
                    continue
                m = {v: mismatch(t.result, plan["versions"][v], use) for v in sorted(w)}
                if all(m.values()):
                    ctx.violate("not_one_version", f"step {k} use_histogram={c['hist']}: versions in place {sorted(w)}, "
                                f"differences {m}, damage {[plan['damage'][v] for v in sorted(w)]}")
                    return
                ctx.probe("complete" if quiet else "complete despite faults")
                ok = [v for v in m if not m[v]]
                kept.append((t.result, [plan["versions"][v] for v in ok], use))
            ctx.sim_time += 0
            del t, calls
            # the simulated threads have ended
            del sim, orig_step, step
            gc.collect()
            if disk.open_files:
                ctx.violate("file_left_open", f"after step {k}: {disk.open_files} open files")
                return
            d = snap.state_diff(before, snap.process_state())
            if d:
                ctx.violate("process_state", f"after step {k}: {d[0]}")
                return
    # what was returned belongs to the caller, whatever happened to the file later
    os.unlink(path)
    for result, vs, use in kept:
        m = [mismatch(result, v, use) for v in vs]
        if all(m):
            ctx.violate("result_changed_later", str(m))
            return


def describe(plan):
    return {"versions": [v["n"] for v in plan["versions"]], "damage": plan["damage"], "gz": plan["gz"],
            "steps": [{"calls": len(s["calls"]), "faults": s["faults"][:3], "replace": s["replace"]} for s in plan["steps"]]}
