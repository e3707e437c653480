#!/usr/bin/env python3
"""Writes MANIFEST.json and known_findings.json's list of repairs from the tables below."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SEARCH = ("seeded search over simulated runs; every run is one fork of a pristine process, a pure function of "
          "(VERIF_SEED, run number), minimised and replayable. Nothing is claimed beyond the explored runs. ")

NOTES = {
    "C01": ("deterministic simulation of a batch-processing cluster (loss, duplication, delay, reordering, retries, worker kills) "
            "against an event-by-event reference count",
            "Real histogramming, effective area, background and estimate code; the cluster, its network and clock are simulated. Trusts the reference counts."),
    "C02": ("deterministic simulation of a batch-processing cluster with worker kills; every row compared with the single-event definition",
            "Real per-event functions; simulated delivery. Trusts the scalar reference formulas and their tolerance."),
    "C03": ("deterministic simulation of unreliable event delivery (loss, duplicates, reordering, kills); tables compared across arrival orders and with per-bin reference values",
            "Real IRF/benchmark functions; simulated delivery. Quantiles compared with an independent implementation."),
    "C04": ("deterministic simulation of arrival orders, progress-stream write errors, clock jumps and interruptions; optimality against all scanned alternatives",
            "Real optimisation and real tqdm on a simulated terminal and clock. Alternatives are evaluated with the repository's own sensitivity functions (C05 checks those)."),
    "C05": ("deterministic fault injection into the significance callback, per bin and evaluation, with a bounded number of evaluations; reference model of the flux scaling",
            "Real root search; the user-supplied significance function is a simulated component that fails on schedule."),
    "C06": ("deterministic thread scheduler (seeded interleavings of line/bytecode steps) over threads sharing one estimator; answers compared with a fresh estimator in a pristine process, physical invariants",
            "Real estimators and real threads under the simulated scheduler; steps inside numpy/scipy C code are atomic."),
    "C07": ("deterministic thread scheduler (seeded interleavings of line/bytecode steps) over public computations sharing their inputs; results compared with isolated calls, process-wide state checked",
            "Real code, real threads, simulated scheduling; steps inside numpy/scipy/astropy are atomic."),
    "C08": ("deterministic simulation of calls that return, raise, are interrupted at a chosen step or interleave with others; byte-exact fingerprints of all arguments",
            "Real code; interruption points are source lines of pyirf."),
    "C09": ("deterministic injection of interruptions at chosen steps and of failing user callbacks, followed by retries compared with a pristine process",
            "Real code; interruption points are source lines of pyirf."),
    "C10": ("deterministic simulation of call histories (successful, failing, interrupted calls, edits of results) against a pristine process and against processes with other environments",
            "Real code; histories are seeded."),
    "C11": ("deterministic simulation of workers delivering templates in seeded completion orders with retries and duplicates; estimators compared across orders",
            "Real estimators; only targets whose answer is unambiguous are compared."),
    "C12": ("deterministic simulation of the disk under the reader: truncation, I/O errors, short reads, atomic replacement between operations, interruptions",
            "Real reader and real astropy.io.fits on a simulated file layer."),
    "C13": ("deterministic simulation of HDU creation histories and interleavings, clock jumps, time zones and failing writes; HDUs compared with an independent description",
            "Real code and real astropy writer; simulated clock and a file-size limit for the full disk."),
    "C14": ("deterministic simulation of network, archive and disk faults and of kills at any step of the download script, followed by retries",
            "Real script; the requests module is a simulated server; kills end a forked process between two source lines."),
    "C15": ("deterministic fault injection into the version sources during import, with repeated imports",
            "Real import of the package; the version sources are simulated modules."),
    "C16": ("deterministic simulation of a staged analysis with kills, cancellations, disk errors and resumption, interleaved with other analyses; products compared with an undisturbed run",
            "Real analysis functions and real FITS/ECSV storage in scratch directories."),
}

NA = {
    "N01": "pure function of its arguments: no schedule, time, I/O, randomness or failure for a simulation to decide (its isolation from failures and histories is part of C05, C07-C10)",
    "N02": "pure formulas: nothing for a simulated scheduler or fault to vary (their behaviour under batching, concurrency and histories is C02, C07, C10)",
    "N03": "pure analytic integrals without concurrency, time or I/O; the counts per bin enter C01's reference",
    "N04": "pure function of two arrays without concurrency, time or I/O",
    "N05": "numerical accuracy of pure functions: no schedule or fault influences it (independence from schedules, order and history is C06, C10, C11)",
    "N06": "pure constructors of gammapy objects (their isolation from schedules, interruptions and histories is checked in C07-C10)",
    "N07": "pure utilities without concurrency, time or I/O",
}

FIXED = [
    ("C08", "must not modify the given effective areas", "EffectiveAreaEstimator replaced small values in the caller's effective areas"),
    ("C08", "must not modify the given kwargs dicts", "PSFTableEstimator added entries to the caller's option dictionaries"),
    ("C06", "fill value handling at the last 1D grid point", "RadMaxEstimator with fill value raised IndexError at the last 1D grid point"),
    ("C11", "fill value handling for unsorted 1D grids", "RadMaxEstimator with fill value used the wrong neighbours for unsorted 1D grids"),
    ("C06", "fill value handling when extrapolating in 2D", "RadMaxEstimator with fill value raised ValueError when extrapolating in 2D"),
    ("C06", "MomentMorphInterpolator at the last", "MomentMorphInterpolator raised IndexError at the last 1D grid point"),
    ("C06", "QuantileInterpolator for bins of different widths", "QuantileInterpolator did not reproduce its templates (10% bias) for bins of different widths, e.g. logarithmic migration bins"),
    ("C06", "must work with PSFTableEstimator", "PSFTableEstimator could not be built with a nearest neighbour search (TypeError)"),
    ("C06", "strip the units of the PSF templates", "PSFTableEstimator failed or returned wrong units for PSF templates given with other integration units"),
    ("C06", "positive axis with nearest neighbor", "EnergyDispersionEstimator/PSFTableEstimator swapped the wrong axes of nearest neighbour results for a positive axis"),
    ("C06", "RadMaxEstimator mixing nearest neighbors", "RadMaxEstimator with nearest neighbour interpolation and real extrapolation ignored the fill value outside the grid"),
    ("C06", "parameter axes of length one", "ParametrizedVisibleEdgesExtrapolator returned wrong shapes for parameter axes of length one"),
    ("C10", "must not return a view of its templates", "editing a nearest-neighbour result changed the templates and later answers"),
    ("C10", "must not share the default reference energy", "changing e_ref of one spectrum in place changed the default reference energy of later spectra"),
    ("C07", "must not change the warning filters", "energy_dispersion_to_migration changed process-wide warning filters, not thread-safe"),
    ("C12", "read all tables from the same file", "read_eventdisplay_fits opened the path three times and could mix versions"),
    ("C14", "must not leave partially written files", "download_irfs left torn files under their final names when interrupted or on disk errors"),
    ("C14", "verify checksums of the downloaded", "download_irfs accepted corrupted archives and stored corrupted IRFs, no checksum was verified"),
    ("C15", "use the installed version if the development", "the version was 0.0.0 despite a valid _version.py when the _dev_version package was broken"),
    ("C04", "lists of theta cut efficiencies", "optimize_cuts with a list of theta efficiencies scanned cuts at a hundredth of the stated efficiencies"),
    ("C01", "solid angle of the bins in background_3d_lonlat", "background_3d_lonlat used a wrong solid angle"),
    ("C01", "use the position angle bin widths", "calculate_n_showers_3d_polar ignored the position angle bin widths"),
    ("C01", "axis order in calculate_n_showers_3d_lonlat", "calculate_n_showers_3d_lonlat returned swapped axes"),
    ("C01", "units of the bin edges in calculate_n_showers_3d_lonlat", "calculate_n_showers_3d_lonlat mixed up units of bin edges"),
    ("C01", "energy bins containing the whole simulated range", "calculate_n_showers_per_energy was wrong for a bin containing the whole simulated range"),
    ("C04", "particle types lost by some of the cuts", "optimize_cuts/optimize_gh_cut failed or mislabelled columns when a particle type has no selected events for some cuts"),
    ("C01", "viewcone overlap of longitude/latitude bins", "effective areas in longitude/latitude were wrong or failed for bins of different sizes and for bins larger than the viewcone"),
    ("C06", "scalar templates in nearest neighbor search", "templates without further dimensions raised IndexError with nearest neighbour search and with rad-max fill values"),
    ("C03", "smooth percentile cuts over the bins", "smoothed cuts for several percentiles were smoothed over the percentiles instead of the bins"),
    ("C06", "grid points on the convex hull", "queries at some of the grid points raised ValueError, were extrapolated or gave NaN, as rounding placed the points outside of the grid (2 or more dimensions)"),
]


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
    checks, na = [], []
    for p in props:
        if p in NA:
            na.append({"property": p, "reason": NA[p]})
        elif os.path.exists(os.path.join(HERE, "sim", "checks", p.lower() + ".py")):
            tech, note = NOTES[p]
            checks.append({
                "property": p,
                "quick_cmd": f"python3 run.py {p}",
                "thorough_cmd": f"python3 run.py {p} --tier thorough",
                "evidence_file": f"evidence/{p}.json",
                "technique": "deterministic simulation with fault injection: " + tech,
                "level": "exploration",
                "level_note": SEARCH + note,
            })
        else:
            na.append({"property": p, "reason": "check not built yet"})
    doc = {"version": 1, "setup_cmd": "python3 run.py --selftest", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: pyirf is imported from /repo's working tree and simulated through interpreter-level "
                    "seams (sys.monitoring, builtins.open, streams, clock, modules); see DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
    kf = os.path.join(HERE, "known_findings.json")
    d = json.load(open(kf))
    fixed = []
    for p, key, what in FIXED:
        (h,) = [l.split()[0] for l in log if key in l]
        fixed.append(f"fixed: property={p} {h} {what}")
    d["fixed"] = fixed
    with open(kf, "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
