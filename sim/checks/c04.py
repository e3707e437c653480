"""C04: cut optimisation picks the best scanned cut for every energy bin."""
import errno
import math
import operator
import sys

import numpy as np
import astropy.units as u
from astropy.table import QTable

from .. import gen, ref
from .. import snapshot as snap
from ..clock import reading
from ..sched import run_single

ID = "C04"
QUICK = {"runs": 100000, "wall": 90}
THOROUGH = {"runs": 10**7, "wall": 1500}
DROPPABLE = ["attempts", "writes", "jumps", "gh_eff", "theta_eff", "mult"]
RULE = ("a run counts as distinct and non-trivial if at least one stream failure, clock jump or interruption fired "
        "and the combination of scan, faults and places was not seen before")
REAL = ["pyirf.cut_optimization", "pyirf.cuts", "pyirf.sensitivity", "pyirf.binning", "tqdm"]
STUB = ["terminal stream (stderr)", "clock of the progress bar"]
ASSUMPTIONS = ["cuts whose sensitivities agree to 1e-7 are equally good",
               "tqdm's own lock is replaced: tqdm does not release it after a failed write"]

ERRNOS = ["EIO", "ENOSPC", "EPIPE", "EAGAIN"]


def plan(r, tier):
    which = r.choice(["cuts", "gh"])
    big = tier != "quick"
    ns, nb = r.choice([1, 5, 30, 80, 150]), r.choice([0, 1, 20, 80, 150])
    sig = gen.events_spec(r, n=ns, weight=r.choice(["float", "none", "quantity", "some_zero"]))
    bkg = gen.events_spec(r, n=nb, weight=sig["weight"])
    for s in (sig, bkg):
        s["dtype"] = r.choice(["f8", "f8", ">f8"])
    bins = gen.energy_bins_spec(r, max_bins=4, overflow=r.random() < 0.3)
    eff = lambda n: sorted(round(r.uniform(0.05, 1.0), 3) for _ in range(n))
    p = {
        "which": which, "signal": sig, "background": bkg, "bins": bins,
        "gh_eff": eff(r.randint(1, 4 if not big else 8)), "theta_eff": eff(r.randint(1, 3)),
        "mult": sorted(r.sample([2, 3, 4, 5, 9], r.randint(1, 3))),
        "alpha": r.choice([1.0, 0.2, 0.2, 0.1]),
        "omin": r.choice([0.0, 0.0, 0.5]), "omax": r.choice([1.0, 2.0, 6.0]), "ounit": r.choice(["deg", "deg", "rad"]),
        "tmin": r.choice([0.02, 0.05]), "tmax": r.choice([0.2, 0.3, 1.0]),
        "default_limits": r.random() < 0.3, "scale": r.choice([1.0, 10.0, 100.0]),
        # a significance function which is not defined everywhere
        "partial": None if r.random() < 0.7 else [r.choice(["nan", "raise"]), r.choice([2, 3, 3, 5])],
        "op": r.choice(["ge", "ge", "gt", "le", "lt"]), "cbins": gen.energy_bins_spec(r), "cseed": r.randrange(1 << 30),
        "kw": r.choice([{}, {}, {"min_significance": 3}, {"min_signal_events": 1}, {"min_excess_over_background": 0.2}]),
        "same_bins": r.random() < 0.6,
        "attempts": [], "eff_type": r.choice(["array", "array", "list"]),
    }
    if which == "gh" and r.random() < 0.2:
        # a fine scan, where the sensitivity has several local minima
        p["gh_eff"] = eff(r.randint(6, 16))
    elif which == "cuts" and r.random() < 0.06:
        p["gh_eff"], p["theta_eff"], p["mult"] = eff(r.randint(5, 9)), eff(2), [2]
    if r.random() < 0.25:
        # scan points close to each other or equal
        k = r.choice(["gh_eff", "theta_eff"])
        near = [round(min(1.0, e + r.choice([0.0, 0.001, 0.002, 0.004, 0.01, 0.02])), 3) for e in p[k][:2] for _ in range(r.randint(1, 2))]
        p[k] = sorted(p[k] + near)
    if r.random() < 0.2:
        p["gh_eff"].reverse()
    for _ in range(r.randint(1, 3)):
        p["attempts"].append({
            "progress": r.random() < 0.75, "perm": r.choice([None, r.randrange(1 << 30)]),
            "writes": [{"at": r.randint(1, 12), "err": r.choice(ERRNOS + ["closed"])} for _ in range(r.choice([0, 0, 1, 1, 2]))],
            "tty": r.random() < 0.3,
            "jumps": [{"at": r.randint(1, 20), "dt": r.choice([-1e6, -3600.0, -1.0, 1e-9, 0.2, 3600.0, 1e9])}
                      for _ in range(r.choice([0, 1, 2, 4]))],
            "kill": int(10 ** r.uniform(0, 3.3)) if r.random() < 0.25 else None,
            "how": r.choice(["KeyboardInterrupt", "MemoryError", "SystemExit"]),
        })
    return p


class Stream:
    """The terminal the progress bar is written to."""

    encoding = "utf-8"

    def __init__(self, writes, tty, ctx):
        self.fail = {w["at"]: w["err"] for w in writes}
        self.n = 0
        self.tty = tty
        self.ctx = ctx
        self.fired = []

    def isatty(self):
        return self.tty

    def fileno(self):
        raise OSError("no file descriptor")

    def _do(self, text):
        self.n += 1
        e = self.fail.get(self.n)
        if e is not None:
            self.fired.append(e)
            self.ctx.fault("stream_" + e)
            if e == "closed":
                raise ValueError("I/O operation on closed file")
            raise OSError(getattr(errno, e), "injected")

    def write(self, text):
        self._do(text)
        return len(text)

    def flush(self):
        pass


class NoLock:
    def acquire(self, *a, **k):
        return True

    def release(self):
        pass

    __enter__ = acquire

    def __exit__(self, *a):
        pass


class Clock:
    def __init__(self, jumps, ctx):
        self.t = 1.0e9
        self.n = 0
        self.jumps = {j["at"]: j["dt"] for j in jumps}
        self.ctx = ctx

    def __call__(self):
        self.n += 1
        self.t += 0.01
        if self.n in self.jumps:
            self.ctx.fault("clock_jump_back" if self.jumps[self.n] < 0 else "clock_jump")
            self.t += self.jumps[self.n]
        return self.t


def tables(plan):
    e = []
    if plan["bins"]["unit"] == "TeV":
        e = gen.energy_bins(plan["bins"]).to_value(u.TeV).tolist()
    sig = gen.events(plan["signal"], e)
    bkg = gen.events(plan["background"], e)
    g = np.random.default_rng(plan["cseed"])
    bkg["reco_source_fov_offset"] = u.Quantity(g.uniform(0, plan["omax"] * 1.2, len(bkg)), u.deg)
    bkg["gh_score"] = bkg["gh_score"] - 0.3
    if "weight" in sig.colnames:
        sig["weight"] = sig["weight"] * plan["scale"]
    return sig, bkg


def theta_table(plan):
    b = gen.energy_bins(plan["bins"] if plan["same_bins"] else plan["cbins"])
    g = np.random.default_rng(plan["cseed"])
    t = QTable()
    t["low"], t["high"] = b[:-1], b[1:]
    t["center"] = 0.5 * (b[:-1] + b[1:])
    t["cut"] = u.Quantity(g.uniform(0.05, 0.5, len(b) - 1), u.deg)
    return t


class Partial:
    """Li & Ma, but not defined for some numbers of off events."""

    def __init__(self, how, every):
        self.how, self.every = how, every

    def __call__(self, n_on, n_off, alpha):
        from pyirf.statistics import li_ma_significance

        if np.ndim(n_off) == 0 and math.isfinite(n_off) and int(8 * float(n_off) + 0.37) % self.every == 0:
            if self.how == "raise":
                raise RuntimeError("not defined")
            return math.nan
        return li_ma_significance(n_on, n_off, alpha)


def options(plan):
    o = {"alpha": plan["alpha"], **plan["kw"]}
    if plan.get("partial"):
        o["significance_function"] = Partial(*plan["partial"])
    if not plan["default_limits"]:
        o["fov_offset_min"] = u.Quantity(plan["omin"], u.deg).to(plan["ounit"])
        o["fov_offset_max"] = u.Quantity(plan["omax"], u.deg).to(plan["ounit"])
    return o


def call(plan, sig, bkg, **kw):
    from pyirf.cut_optimization import optimize_cuts, optimize_gh_cut

    b = gen.energy_bins(plan["bins"])
    kind = list if plan.get("eff_type") == "list" else np.array
    if plan["which"] == "gh":
        o = options(plan)
        if plan["op"] != "ge" or plan["cseed"] % 2:
            o["op"] = getattr(operator, plan["op"])
        return optimize_gh_cut(sig, bkg, b, kind(plan["gh_eff"]), theta_table(plan), **o, **kw)
    o = options(plan)
    if not plan["default_limits"]:
        o["theta_min_value"] = u.Quantity(plan["tmin"], u.deg)
        o["theta_max_value"] = u.Quantity(plan["tmax"], u.deg)
    return optimize_cuts(sig, bkg, b, kind(plan["mult"]), kind(plan["gh_eff"]), kind(plan["theta_eff"]), **o, **kw)


# -- all alternatives, from the definition ---------------------------------------------
def find(x, edges):
    return [ref.find_bin(float(v), edges, False) for v in x]


def alternatives(plan, sig, bkg):
    """[(labels, per-bin cuts, sensitivity table)] for every scanned combination."""
    from pyirf.binning import create_histogram_table
    from pyirf.sensitivity import calculate_sensitivity, estimate_background

    b = gen.energy_bins(plan["bins"])
    n = len(b) - 1
    tmin, tmax = (0.02, 0.3) if plan["default_limits"] else (plan["tmin"], plan["tmax"])
    o = options(plan)
    omin, omax = o.pop("fov_offset_min", 0 * u.deg), o.pop("fov_offset_max", 1 * u.deg)
    alpha = o.pop("alpha")
    edges = lambda t, k: list(b.to_value(t[k].unit))
    sb = find(sig["reco_energy"].value, edges(sig, "reco_energy"))
    bb = find(bkg["reco_energy"].value, edges(bkg, "reco_energy"))
    gs, gb = [float(x) for x in sig["gh_score"]], [float(x) for x in bkg["gh_score"]]
    th = [float(x) for x in sig["theta"].to_value(u.deg)]
    less = plan["which"] == "gh" and plan["op"] in ("le", "lt")
    cmp = getattr(operator, plan["op"]) if plan["which"] == "gh" else operator.ge
    fill = min(gs) if less else max(gs)

    unclear = set()

    def cut(values, rows, pct, fill, lo=None, hi=None):
        out = []
        for k in range(n):
            g = [i for i in rows if sb[i] == k]
            if len(g) < 10:
                out.append(fill)
                continue
            v = ref.percentile([values[i] for i in g], pct)
            pos = pct / 100 * (len(g) - 1)
            if abs(pos - round(pos)) < 1e-9 and 0 < round(pos) < len(g) - 1:
                unclear.add(k)
            if lo is not None:
                v = min(max(v, lo), hi)
            out.append(v)
        return out

    def near(rows, values, c):
        # an event at a rounding error from the cut: both sides are right
        for i in rows:
            if sb[i] is not None:
                x, y = values[i], c[sb[i]]
                if x != y and abs(x - y) <= 1e-11 * max(1, abs(y)):
                    unclear.add(sb[i])

    table = QTable()
    table["low"], table["high"], table["center"] = b[:-1], b[1:], 0.5 * (b[:-1] + b[1:])
    res = []
    mult = [None] if plan["which"] == "gh" else plan["mult"]
    for m in mult:
        ok_s = [m is None or int(x) >= m for x in sig["multiplicity"]]
        ok_b = [m is None or int(x) >= m for x in bkg["multiplicity"]]
        rows = [i for i in range(len(sig)) if ok_s[i]]
        ghs = {e: cut(gs, rows, 100 * e if less else 100 * (1 - e), fill) for e in plan["gh_eff"]}
        if plan["which"] == "gh":
            tt = theta_table(plan)
            te = list(tt["low"].to_value(sig["reco_energy"].unit)) + [tt["high"].to_value(sig["reco_energy"].unit)[-1]]
            tb = find(sig["reco_energy"].value, te)
            tc = tt["cut"].to_value(u.deg)
            thetas = {None: (tt, [tb[i] is not None and th[i] <= tc[tb[i]] for i in range(len(sig))])}
        else:
            thetas = {}
            for e in plan["theta_eff"]:
                c = cut(th, rows, 100 * e, tmax, tmin, tmax)
                t = table.copy()
                t["cut"] = u.Quantity(c, u.deg)
                # compare as the table does: the percentile itself is one of the inputs of <=
                near(rows, th, c)
                thetas[e] = (t, [sb[i] is not None and th[i] <= c[sb[i]] * (1 + 1e-12) for i in range(len(sig))])
        for ge, gc in ghs.items():
            tolg = 1e-12
            near(rows, gs, gc)

            def passes(x, k):
                if k is None:
                    return False
                y = gc[k]
                if abs(x - y) <= tolg * max(1, abs(y)):
                    x = y
                return bool(cmp(x, y))

            ms_gh = [passes(gs[i], sb[i]) for i in range(len(sig))]
            mb = np.array([ok_b[i] and passes(gb[i], bb[i]) for i in range(len(bkg))], dtype=bool)
            for t_e, (tt, mt) in thetas.items():
                ms = np.array([ok_s[i] and ms_gh[i] and mt[i] for i in range(len(sig))], dtype=bool)
                h = create_histogram_table(sig[ms], b, "reco_energy")
                bg = estimate_background(bkg[mb], b, tt, alpha, omin, omax)
                s = calculate_sensitivity(h, bg, alpha=alpha, **o)
                res.append({"m": m, "t": t_e, "g": ge, "gc": gc, "tc": None if t_e is None else tt["cut"].to_value(u.deg),
                            "s": s, "rel": [float(x) for x in s["relative_sensitivity"]]})
    for a in res:
        a["unclear"] = unclear
    return res


def close(a, b, rtol=1e-9):
    a, b = float(a), float(b)
    if a != a or b != b:
        return (a != a) == (b != b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= rtol * max(abs(a), abs(b)) + 1e-300


def verify(ctx, plan, alts, result, what):
    """Is the result optimal and made of scanned combinations?"""
    b = gen.energy_bins(plan["bins"])
    n = len(b) - 1
    if plan["which"] == "gh":
        sens, gh = result
        theta = mult = None
    else:
        sens, mult, theta, gh = result
    for name, t in (("sensitivity", sens), ("gh", gh), ("theta", theta), ("multiplicity", mult)):
        if t is None:
            continue
        if len(t) != n:
            return ctx.violate("wrong_length", f"{what}: {name} table has {len(t)} rows for {n} bins")
        lo, hi = ("reco_energy_low", "reco_energy_high") if name == "sensitivity" else ("low", "high")
        if not (np.allclose(t[lo].to_value(u.TeV), b[:-1].to_value(u.TeV), rtol=1e-9)
                and np.allclose(t[hi].to_value(u.TeV)[:-1], b[1:-1].to_value(u.TeV), rtol=1e-9)):
            return ctx.violate("wrong_bins", f"{what}: {name}")
    for k in range(n):
        if k in alts[0]["unclear"]:
            ctx.probe("unclear_cut")
            continue
        rel = float(sens["relative_sensitivity"][k])
        ctx.units += 1
        finite = [a["rel"][k] for a in alts if a["rel"][k] == a["rel"][k]]
        best = min(finite) if finite else math.nan
        if best == math.inf and math.isnan(rel) and any(math.isnan(a["rel"][k]) for a in alts):
            # neither is smaller: not detectable, and not computable
            best = rel
        if not close(rel, best, 1e-7):
            return ctx.violate("not_optimal", f"{what}: bin {k}: relative sensitivity {rel!r}, best scanned {best!r}")
        # the reported combination
        cand = []
        for a in alts:
            if not close(gh["cut"][k], a["gc"][k], 1e-9) or not close(gh["efficiency"][k], a["g"]):
                continue
            if theta is not None:
                if not close(theta["cut"][k].to_value(u.deg), a["tc"][k], 1e-9) or not close(theta["efficiency"][k], a["t"]):
                    continue
                if not close(mult["cut"][k], a["m"]):
                    continue
            cand.append(a)
        if not cand:
            return ctx.violate("not_a_scanned_cut", f"{what}: bin {k}: gh {gh['cut'][k]!r} efficiency {gh['efficiency'][k]!r}")
        if not any(same_row(sens, a["s"], k) for a in cand):
            a = cand[0]
            return ctx.violate("sensitivity_of_another_cut", f"{what}: bin {k}: reported {row(sens, k)}, the reported cut "
                               f"yields {row(a['s'], k)}")


COLS = ["n_signal", "n_signal_weighted", "n_background", "n_background_weighted", "significance", "relative_sensitivity"]


def row(t, k):
    return {c: float(u.Quantity(t[c][k]).value) for c in COLS}


def same_row(a, b, k):
    ra, rb = row(a, k), row(b, k)
    return all(close(ra[c], rb[c], 1e-6) for c in COLS)


def run(plan, ctx):
    import warnings
    import logging
    import tqdm
    import tqdm.std

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    np.seterr(all="ignore")
    tqdm.std.tqdm.monitor_interval = 0
    # a failed write leaves tqdm's own lock held by the thread that died: not pyirf's
    tqdm.std.tqdm.set_lock(NoLock())
    if not plan["gh_eff"] or not plan["theta_eff"] or not plan["mult"]:
        return
    sig, bkg = tables(plan)
    if len(sig) == 0:
        return
    ctx.shape(plan["which"], len(plan["gh_eff"]), len(plan["theta_eff"]), len(plan["mult"]))
    ctx.probe("scan_" + plan["which"])
    alts = alternatives(plan, sig, bkg)
    with reading(Clock([], ctx)):
        base = call(plan, sig, bkg, progress=False)
    verify(ctx, plan, alts, base, "progress=False")
    if ctx.violations:
        return
    ctx.note([f"{x:.6e}" for x in base[0]["relative_sensitivity"]])
    exact = snap.canon(list(base))
    state = snap.process_state()
    real_err = sys.stderr
    for i, a in enumerate(plan["attempts"]):
        s, b = sig, bkg
        if a["perm"] is not None:
            g = np.random.default_rng(a["perm"])
            s, b = sig[g.permutation(len(sig))], bkg[g.permutation(len(bkg))]
            ctx.fault("arrival_order")
        stream, clock = Stream(a["writes"], a["tty"], ctx), Clock(a["jumps"], ctx)
        # seam: the stream, and every clock function pyirf and tqdm may read
        sys.stderr = stream
        watch = reading(clock)
        watch.__enter__()
        try:
            kills = [(a["kill"], a["how"])] if a["kill"] else []
            if kills:
                task, sim = run_single(lambda: call(plan, s, b, progress=a["progress"]), interrupts=kills)
                ctx.add_sim(sim)
                if sim.interrupts_fired and task.exc is not None:
                    task.exc = None
                    continue
                exc = None if task.exc is None else f"{type(task.exc).__name__}: {task.exc}"
                result = task.result
                task.exc = None
            else:
                exc = result = None
                try:
                    result = call(plan, s, b, progress=a["progress"])
                except Exception as e:  # noqa
                    exc = f"{type(e).__name__}: {e}"
        finally:
            watch.__exit__()
            sys.stderr = real_err
        ctx.shape(a["progress"], stream.fired, clock.n)
        if exc is not None:
            if stream.fired:
                ctx.probe("aborted_by_stream")
                continue
            ctx.violate("unexpected_exception", f"attempt {i}: {exc}")
            return
        if a["perm"] is None:
            d = snap.diff(snap.canon(list(result)), exact)
            if d:
                ctx.violate("result_depends_on_progress", f"attempt {i} progress={a['progress']}: {d}")
                return
        else:
            verify(ctx, plan, alts, result, f"attempt {i} (permuted)")
            if ctx.violations:
                return
    for d in snap.state_diff(state, snap.process_state()):
        ctx.violate("process_state", d)
    ctx.probe("combinations", len(alts))
    for x in zip(*(a["rel"] for a in alts)):
        bad = sum(v != v for v in x)
        ctx.probe("bins_with_failing_combinations", int(0 < bad < len(x)))


def describe(plan):
    return {k: plan[k] for k in ("which", "gh_eff", "theta_eff", "mult", "attempts")}
