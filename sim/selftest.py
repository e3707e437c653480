"""Setup: does the simulator itself work here?  Same seeds, same executions."""
import importlib
import os
import shutil
import tempfile

from . import runner, sched


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    names = sorted(f[:-3] for f in os.listdir(os.path.join(here, "checks")) if f.startswith("c") and f.endswith(".py"))
    checks = [importlib.import_module("sim.checks." + n) for n in names]
    for c in checks:
        if hasattr(c, "prepare"):
            c.prepare()
    sched._codes = sched.pyirf_code_objects()
    base = tempfile.mkdtemp(prefix="verif-sim-", dir="/tmp")
    bad = 0
    try:
        for c in checks:
            got = []
            for jobs in (8, 3):
                d = {}
                for res in runner.search(c, 7, "quick", 24, 300, jobs, base):
                    d[res["i"]] = (res.get("digest"), res.get("sig"), str(res.get("text"))[-500:] if res.get("harness") else None)
                got.append(d)
            diff = [i for i in range(24) if got[0].get(i) != got[1].get(i)]
            broken = [v[2] for v in got[0].values() if v[2]]
            print(f"{c.ID}: 24 runs twice: " + ("identical" if not diff else f"DIFFERENT {diff}")
                  + (f" HARNESS {broken[0]}" if broken else ""), flush=True)
            bad += bool(diff) + bool(broken)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    # reported, not fatal: the checks themselves decide
    print("selftest: " + ("ok" if not bad else f"{bad} problem(s)"), flush=True)
    return 0
