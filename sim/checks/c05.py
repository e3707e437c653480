"""C05: sensitivity bins are isolated from each other's failures."""
import math

import numpy as np
import astropy.units as u
from astropy.table import QTable

from .. import gen, ref
from .. import snapshot as snap
from ..sched import run_single

ID = "C05"
QUICK = {"runs": 100000, "wall": 50}
THOROUGH = {"runs": 10**7, "wall": 1500}
DROPPABLE = ["bins", "kills"]
RULE = ("a run counts as distinct and non-trivial if at least one fault of the significance function fired and the "
        "combination of fault kinds, evaluation numbers and bins was not seen before")
REAL = ["pyirf.sensitivity", "pyirf.statistics", "scipy.optimize.brentq"]
STUB = ["user-supplied significance function (with injected failures)"]
ASSUMPTIONS = ["counts are chosen so that the solution lies well inside the range the implementation documents to search",
               "failures of the significance function are RuntimeError or ValueError (others may abort the call)"]

CALL_LIMIT = 20000
KINDS = ["raise_value", "raise_runtime", "nan", "saturate", "raise_at", "nan_at", "weak", "limited"]


class Runaway(BaseException):
    pass


def plan(r, tier):
    n = r.choice([1, 2, 3, 5, 8, 12])
    bins = []
    for i in range(n):
        k = r.random()
        b = {"kind": "ok"}
        if k < 0.62:
            n_off = round(10 ** r.uniform(0.3, 5), 6)
            b.update(sig=round(10 ** r.uniform(-1, 4), 6), off=n_off)
        elif k < 0.72:
            b.update(sig=round(r.uniform(1, 400), 6), off=round(r.uniform(0.01, 1.0), 6))
        elif k < 0.78:
            b.update(sig=0.0, off=round(10 ** r.uniform(0, 3), 6))
        elif k < 0.84:
            b.update(sig=round(10 ** r.uniform(0, 3), 6), off=0.0)
        elif k < 0.9:
            b.update(sig=-round(10 ** r.uniform(0, 0.5), 6), off=round(10 ** r.uniform(2, 3), 6))
        elif k < 0.95:
            b.update(sig=0.0, off=0.0)
        else:
            b.update(sig=None, off=round(10 ** r.uniform(0, 3), 6))
        if r.random() < 0.35:
            b["kind"] = r.choice(KINDS)
            b["at"] = r.randint(1, 12)
            b["n"] = r.choice([1, 1, 2, 50])
            b["f"] = round(10 ** r.uniform(0, 2.5), 4)
        bins.append(b)
    # weak sources, short observations
    if r.random() < 0.15:
        f = 10 ** r.uniform(-5, -1)
        for b in bins:
            if b["sig"] is not None and r.random() < 0.8:
                b["sig"], b["off"] = b["sig"] * f, b["off"] * f
    # bins with almost the same counts
    if r.random() < 0.3:
        eps = 10 ** r.uniform(-9, -1)
        for i in range(1, n):
            j = r.randrange(i)
            if bins[j]["sig"] is not None and r.random() < 0.6:
                k = r.choice(["sig", "off", "both", "abs"])
                bins[i] = dict(bins[j])
                for x in ("sig", "off"):
                    if k in (x, "both"):
                        bins[i][x] *= 1 + eps * r.uniform(-1, 1)
                    elif k == "abs":
                        bins[i][x] += eps * r.random()
    # bins with the same counts
    for i in range(1, n):
        if r.random() < 0.15:
            j = r.randrange(i)
            if bins[j]["kind"] == "ok" and "dup" not in bins[j]:
                bins[i] = dict(bins[j], dup=j)
    per_bin = r.random() < 0.25
    return {
        "bins": bins, "alpha": r.choice([1.0, 0.2, 0.2, 0.1, 0.5, 2.0]),
        "target": r.choice([5.0, 5.0, 3.0, 1.0, 7.5]),
        "min_signal": r.choice([10.0, 10.0, 0.0, 1.0, 200.0]),
        "min_excess": r.choice([0.05, 0.05, 0.0, 0.01, 0.5]),
        "defaults": r.random() < 0.2,
        "function": r.choice(["default", "lima", "lima", "simple", "step", "uneven"]),
        "per_bin_target": [r.choice([1.0, 3.0, 5.0]) for _ in range(12)] if per_bin else None,
        # all criteria may differ between the bins
        "per_bin": {k: [r.choice(v) for _ in range(12)] for k, v in
                    (("min_signal", [10.0, 0.0, 1.0, 50.0, 200.0]), ("min_excess", [0.05, 0.0, 0.01, 0.5]),
                     ("alpha", [1.0, 0.2, 0.1, 0.5])) if r.random() < 0.5} if r.random() < 0.25 else {},
        "outer": r.choice([[0.2, 1.0], [0.5, 0.1, 0.2]]) if r.random() < 0.1 else None,
        "level": r.choice(["relative", "relative", "table", "scalar"]),
        # the required number of events just above or below what the significance needs in one bin
        "tight": None if r.random() < 0.7 else
        [r.randrange(n), r.choice([-1, 1]) * 10 ** r.uniform(-4.5, -1), r.choice(["signal", "excess"])],
        "weights": r.random() < 0.5, "ints": r.random() < 0.15,
        "seed": r.randrange(1 << 30),
        "kills": [{"step": int(10 ** r.uniform(0, 3)), "how": r.choice(["KeyboardInterrupt", "MemoryError"])}
                  for _ in range(r.choice([0, 0, 0, 1]))],
    }


def simple(n_on, n_off, alpha):
    return (n_on - alpha * n_off) / np.sqrt(alpha * n_off + 1.0)


def stepped(n_on, n_off, alpha):
    """Monotonic, continuous, with a kink."""
    x = simple(n_on, n_off, alpha)
    return np.where(np.asarray(x) > 2, 2 + 3 * (np.asarray(x) - 2), x)[()]


def uneven(n_on, n_off, alpha):
    """Far weaker with few counts."""
    x = np.asarray(simple(n_on, n_off, alpha))
    return np.where(np.asarray(n_off) < 50, x / 40, x)[()]


class Significance:
    """The user's function; misbehaves in the bins the plan says, by the counts of the bin."""

    def __init__(self, base, offs, kinds, target, ctx):
        self.base = base
        self.by = {}
        self.counts = {}
        self.calls = 0
        self.ctx = ctx
        self.fired = {}
        self.target = target
        for o, k in zip(offs, kinds):
            if k["kind"] != "ok":
                self.by[float(o)] = k

    def __call__(self, n_on, n_off, alpha):
        if np.ndim(n_on) > 0 or hasattr(n_on, "unit"):
            # the whole column at once
            return self.base(n_on, n_off, alpha)
        self.calls += 1
        key = float(n_off)
        c = self.counts[key] = self.counts.get(key, 0) + 1
        if c > CALL_LIMIT:
            raise Runaway(f"{c} evaluations for one bin")
        k = self.by.get(key)
        if k is None:
            return self.base(n_on, n_off, alpha)
        kind = k["kind"]

        def fire():
            self.fired[key] = self.fired.get(key, 0) + 1
            if self.fired[key] == 1:
                self.ctx.fault("significance_" + kind)

        if kind == "raise_value":
            fire()
            raise ValueError("injected")
        if kind == "raise_runtime":
            fire()
            raise RuntimeError("injected")
        if kind == "nan":
            fire()
            return np.nan
        if kind == "saturate":
            fire()
            return min(self.base(n_on, n_off, alpha), 0.4 * self.target)
        if kind == "weak":
            fire()
            return self.base(n_on, n_off, alpha) / k["f"]
        if kind == "limited" and n_on > (1 + k["off"]) * k["f"]:
            fire()
            return np.nan
        if kind in ("raise_at", "nan_at") and k["at"] <= c < k["at"] + k["n"]:
            fire()
            if kind == "nan_at":
                return np.nan
            raise (ValueError if k["n"] == 1 else RuntimeError)("injected")
        return self.base(n_on, n_off, alpha)


def expected(b, n_on, n_off, alpha, target, min_signal, min_excess, base):
    """(value, known): the definition evaluated by bisection."""
    if n_on != n_on or n_off != n_off:
        return math.nan, True
    bkg = n_off * alpha
    s = n_on - bkg
    if s <= 0:
        return math.inf, True
    lo, hi = (0.01, 10.0) if n_off > 1 else (1e-4, 100.0)
    if n_off > 1:
        naive = target * math.sqrt(bkg) / s
        lo, hi = lo * naive, hi * naive
    f = lambda x: float(base(s * x + bkg, n_off, alpha)) - target
    # near the ends of the documented range the implementation may give up
    if not f(lo * 1.5) < 0 < f(hi / 1.5):
        return None, False
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if f(mid) < 0:
            lo = mid
        else:
            hi = mid
    x = 0.5 * (lo + hi)
    need = max(min_signal, min_excess * bkg)
    return max(x, need / s), True


def run(plan, ctx):
    import warnings
    from pyirf.sensitivity import calculate_sensitivity, relative_sensitivity
    from pyirf.statistics import li_ma_significance

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    import logging

    logging.disable(logging.CRITICAL)
    bins = plan["bins"]
    if not bins:
        return
    alpha, target = plan["alpha"], plan["target"]
    ms, me = plan["min_signal"], plan["min_excess"]
    if plan["defaults"]:
        target, ms, me = 5.0, 10.0, 0.05
    kw = {} if plan["defaults"] else {"min_significance": target, "min_signal_events": ms, "min_excess_over_background": me}
    off = np.array([b["off"] for b in bins])
    # distinct counts identify the bin inside the significance function
    for i in range(len(off)):
        while any(off[i] == off[j] and {bins[i]["kind"], bins[j]["kind"]} != {"ok"} for j in range(i)):
            off[i] += 0.125 if off[i] > 1 else 0.001
    per_bin = {k: v[: len(bins)] for k, v in plan.get("per_bin", {}).items()} \
        if plan["level"] == "relative" and not plan["defaults"] else {}
    if per_bin:
        ctx.probe("per_bin_criteria")
    if "alpha" in per_bin:
        alpha = np.array(per_bin["alpha"])
    if "min_signal" in per_bin:
        ms = kw["min_signal_events"] = np.array(per_bin["min_signal"])
    if "min_excess" in per_bin:
        me = kw["min_excess_over_background"] = np.array(per_bin["min_excess"])
    on = np.array([math.nan if b["sig"] is None else max(0.0, b["sig"] + a * o)
                   for b, o, a in zip(bins, off, np.broadcast_to(alpha, len(bins)))])
    if plan["ints"] and plan["level"] == "relative" and not np.isnan(on).any():
        sig = on - alpha * off
        off = np.ceil(off).astype(int)
        for i in range(len(off)):
            while any(off[i] == off[j] and {bins[i]["kind"], bins[j]["kind"]} != {"ok"} for j in range(i)):
                off[i] += 1
        on = np.ceil(np.maximum(0, sig + alpha * off)).astype(int)
    for i, b in enumerate(bins):
        j = b.get("dup")
        if j is not None and j < i and bins[j] == {k: v for k, v in b.items() if k != "dup"}:
            on[i], off[i] = on[j], off[j]
            ctx.probe("equal_bins")
    alphas, mss, mes = (np.broadcast_to(x, len(bins)) for x in (alpha, ms, me))
    base = {"lima": ref_lima, "default": ref_lima, "simple": simple, "step": stepped, "uneven": uneven}[plan["function"]]
    real_base = {"lima": li_ma_significance, "default": li_ma_significance}.get(plan["function"], base)
    targets = [target] * len(bins)
    level = plan["level"]
    if plan["per_bin_target"] and level == "relative" and not plan["defaults"]:
        targets = plan["per_bin_target"][: len(bins)]
        kw["min_significance"] = np.array(targets)
        ctx.probe("per_bin_criteria")
    fault = plan["function"] != "default"
    kinds = [b if fault else {"kind": "ok"} for b in bins]
    for b in kinds:
        ctx.shape(b["kind"], b.get("at"), b.get("n"))
    ctx.shape(level, plan["function"])

    def new_fn():
        return Significance(real_base, [float(o) for o in off], kinds, min(targets), ctx)

    fn = new_fn()
    if fault:
        kw["significance_function"] = fn
    tight = plan.get("tight")
    if tight and tight[0] < len(bins) and not plan["defaults"]:
        i, eps, what = tight
        x, known = expected(bins[i], float(on[i]), float(off[i]), alphas[i], targets[i], 0.0, 0.0, base)
        if known and math.isfinite(x) and off[i] > 0:
            ctx.probe("tight_criterion")
            n = x * (float(on[i]) - alphas[i] * float(off[i])) * (1 + eps)
            if what == "signal":
                mss = np.where(np.arange(len(bins)) == i, n, mss) if np.ndim(ms) else np.full(len(bins), n)
                ms = kw["min_signal_events"] = mss if np.ndim(ms) else n
            else:
                n /= alphas[i] * float(off[i])
                mes = np.where(np.arange(len(bins)) == i, n, mes) if np.ndim(me) else np.full(len(bins), n)
                me = kw["min_excess_over_background"] = mes if np.ndim(me) else n
    state = snap.process_state()
    table = None
    g = np.random.default_rng(plan["seed"])
    w = g.uniform(0.2, 3, len(bins))

    def call():
        if level == "table":
            e = np.geomspace(0.05, 50, len(bins) + 1) * u.TeV
            sig, bkg = QTable(), QTable()
            for t in (sig, bkg):
                t["reco_energy_low"], t["reco_energy_high"] = e[:-1], e[1:]
                t["reco_energy_center"] = 0.5 * (e[:-1] + e[1:])
            sw = on - alpha * off
            bkg["n"], bkg["n_weighted"] = off * w, off
            bkg["n_proton"], bkg["n_proton_weighted"] = off * w, off
            sig["n"], sig["n_weighted"] = sw * w, sw
            return calculate_sensitivity(sig, bkg, alpha=alpha, **kw)
        if level == "scalar":
            return [relative_sensitivity(a, b, alpha, **kw) for a, b in zip(on, off)]
        return relative_sensitivity(on, off, alpha, **kw)

    if level == "table":
        # what a table of these counts holds
        on = np.maximum(on - alpha * off, 0) + alpha * off if not np.isnan(on).any() else on

    def alone():
        """Every bin by itself, in the opposite order."""
        out = []
        for i in range(len(bins))[::-1]:
            k2 = {k: (v[i] if np.ndim(v) else new_fn() if k == "significance_function" else v)
                  for k, v in kw.items()}
            try:
                out.append(float(relative_sensitivity(on[i], off[i], alphas[i], **k2)))
            except Exception as e:
                out.append(type(e).__name__)
        return out[::-1]

    single = ctx.isolated(alone)
    for k in plan["kills"]:
        task, sim = run_single(call, interrupts=[(k["step"], k["how"])])
        ctx.add_sim(sim)
        fn.counts.clear()
    if level == "table" and np.any(on - alpha * off < 0):
        on = np.maximum(on, alpha * off)
    try:
        out = call()
    except Runaway as e:
        ctx.violate("unbounded", e)
        return
    except (ValueError, RuntimeError, ArithmeticError) as e:
        ctx.violate("failure_not_contained", f"{type(e).__name__}: {e}")
        return
    if level == "table":
        table, out = out, np.asarray(out["relative_sensitivity"])
    out = np.array([float(x) for x in out])
    if len(out) != len(bins):
        ctx.violate("wrong_length", f"{len(out)} values for {len(bins)} bins")
        return
    ctx.note([f"{x:.6e}" for x in out])
    eff_on = on.astype(float)
    if level == "table":
        eff_on = (on - alpha * off) + alpha * off
    for i, b in enumerate(bins):
        if kinds[i]["kind"] not in ("raise_at", "nan_at") and \
                (isinstance(single[i], str) or not close(out[i], single[i])):
            ctx.violate("depends_on_other_bins", f"bin {i} of {len(bins)} ({kinds[i]['kind']}): n_on={eff_on[i]!r} "
                        f"n_off={off[i]!r} alpha={alphas[i]}: {out[i]!r}, alone {single[i]!r}")
            return
        if kinds[i]["kind"] in ("weak", "limited"):
            continue
        want, known = expected(b, float(eff_on[i]), float(off[i]), alphas[i], targets[i], mss[i], mes[i], base)
        kind = kinds[i]["kind"]
        key = float(off[i])
        ctx.units += 1
        if kind in ("raise_value", "raise_runtime", "nan", "saturate"):
            if key in fn.fired:
                if not math.isnan(out[i]):
                    ctx.violate("failed_bin_not_nan", f"bin {i} ({kind}): {out[i]!r}")
                    return
                continue
        elif kind in ("raise_at", "nan_at") and key in fn.fired and math.isnan(out[i]):
            continue
        if not known:
            ctx.probe("outside_search_range")
            continue
        if not close(out[i], want):
            ctx.violate("wrong_sensitivity", f"bin {i} of {len(bins)} ({kind}): n_on={eff_on[i]!r} n_off={off[i]!r} "
                        f"alpha={alphas[i]} target={targets[i]}: {out[i]!r}, expected {want!r}")
            return
        if table is not None and math.isfinite(want):
            nsw = float(table["n_signal_weighted"][i])
            ns = float(table["n_signal"][i])
            s0 = float(on[i] - alpha * off[i])
            if not close(nsw, s0 * out[i]) or not close(ns, s0 * w[i] * out[i]):
                ctx.violate("wrong_table", f"bin {i}: n_signal_weighted={nsw!r} n_signal={ns!r} for "
                            f"{s0!r} (x {w[i]!r}) events and relative sensitivity {out[i]!r}")
                return
            if float(table["significance"][i]) < targets[i] * (1 - 1e-6):
                ctx.violate("not_significant", f"bin {i}: {table['significance'][i]!r}")
                return
            if nsw < max(mss[i], mes[i] * alphas[i] * off[i]) * (1 - 1e-9):
                ctx.violate("criteria_not_met", f"bin {i}: {nsw!r} signal events")
                return
        if table is not None and not close(float(table["n_background_weighted"][i]), float(off[i])):
            ctx.violate("wrong_table", f"bin {i}: n_background_weighted {table['n_background_weighted'][i]!r}")
            return
    if plan.get("outer") and level == "relative" and not plan["defaults"] and {k["kind"] for k in kinds} == {"ok"}:
        outer(plan["outer"], on, off, kw, relative_sensitivity, ctx)
    if table is not None:
        e = np.geomspace(0.05, 50, len(bins) + 1)
        for k, v in (("low", e[:-1]), ("high", e[1:]), ("center", 0.5 * (e[:-1] + e[1:]))):
            if not np.allclose(u.Quantity(table["reco_energy_" + k]).to_value(u.TeV), v, rtol=1e-12, atol=0):
                ctx.violate("wrong_table", f"reco_energy_{k}: {table['reco_energy_' + k]}")
                return
    for d in snap.state_diff(state, snap.process_state()):
        ctx.violate("process_state", d)
    ctx.probe("bins", len(bins))
    ctx.probe("evaluations", fn.calls)


def outer(alphas, on, off, kw, fn, ctx):
    """All bins for several exposures at once, against one exposure after the other."""
    ctx.probe("broadcast")
    kw2 = {k: v[:, None] if np.ndim(v) else v for k, v in kw.items()}
    got = np.asarray(fn(on[:, None], off[:, None], np.array(alphas)[None, :], **kw2), dtype=float)
    if got.shape != (len(on), len(alphas)):
        ctx.violate("wrong_length", f"shape {got.shape} for {len(on)} bins and {len(alphas)} exposures")
        return
    for j, a in enumerate(alphas):
        one = np.asarray(fn(on, off, a, **kw), dtype=float)
        for i in range(len(on)):
            ctx.units += 1
            if not close(got[i, j], one[i]):
                ctx.violate("depends_on_other_bins", f"bin {i} of {len(on)}, exposure {j} of {len(alphas)}: n_on={on[i]!r} "
                            f"n_off={off[i]!r} alpha={a}: {got[i, j]!r}, without the other exposures {one[i]!r}")
                return


def ref_lima(n_on, n_off, alpha):
    return ref.li_ma(float(n_on), float(n_off), alpha)


def close(a, b):
    if b != b or a != a:
        return (a != a) == (b != b)
    if math.isinf(b) or math.isinf(a):
        return a == b
    return abs(a - b) <= 1e-6 * abs(b) + 1e-9


def describe(plan):
    return {"bins": [b["kind"] for b in plan["bins"]], "level": plan["level"], "function": plan["function"]}
