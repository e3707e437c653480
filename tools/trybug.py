#!/usr/bin/env python3
"""Try planted changes in scratch copies of /repo: tools/trybug.py [--no-check] [--wall S] [--jobs N] [--also C07,C09] ID...

For every seeded/ID: applies, builds, passes the stable tests, demo 0 without and nonzero with the patch,
then runs the property's check (and others asked for) on the patched copy.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = {**os.environ, "SETUPTOOLS_SCM_PRETEND_VERSION": "0.14.0", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg",
       "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--no-check", action="store_true")
    ap.add_argument("--no-test", action="store_true")
    ap.add_argument("--wall")
    ap.add_argument("--jobs", default="8")
    ap.add_argument("--also", default="")
    ap.add_argument("ids", nargs="+")
    a = ap.parse_args()
    stable = json.load(open("/opt/vp/BASELINE.json"))
    stable = stable.get("stable", stable.get("passed", stable)) if isinstance(stable, dict) else stable
    for i in a.ids:
        d = os.path.join(HERE, "seeded", i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        tmp = f"/tmp/bug-{i}-{os.getpid()}"
        demo = tmp + "-demo"
        shutil.copytree("/repo", tmp, symlinks=True)
        shutil.copytree(d, demo)
        try:
            line = [i, meta["property"]]
            if not a.no_test:
                r = sh(f"bash {demo}/demo.sh", tmp, {**os.environ, "PYTHONDONTWRITEBYTECODE": "1"}, 300)
                line.append(f"demo clean rc={r.returncode}" + ("" if r.returncode == 0 else " BAD\n" + r.stdout[-1500:]))
            r = sh(f"git apply {d}/patch.diff", tmp)
            if r.returncode:
                print(i, "PATCH DOES NOT APPLY", r.stdout)
                continue
            if not a.no_test:
                r = sh(f"bash {demo}/demo.sh", tmp, {**os.environ, "PYTHONDONTWRITEBYTECODE": "1"}, 300)
                line.append(f"patched rc={r.returncode}" + ("" if r.returncode else " BAD"))
                r = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 4 --timeout=300 --continue-on-collection-errors pyirf 2>&1 | tail -8", tmp)
                t = r.stdout.strip().splitlines()[-1]
                line.append("tests " + t.strip("= "))
                if "153 passed" not in t or "failed" in t:
                    line.append("BAD\n" + r.stdout)
            print(*line, sep=" | ", flush=True)
            if not a.no_check:
                for c in [meta["property"], *[x for x in a.also.split(",") if x]]:
                    w = f"--wall {a.wall}" if a.wall else ""
                    r = sh(f"python3 run.py {c} --no-evidence --jobs {a.jobs} {w}", HERE, {**os.environ, "VERIF_DEV_REPO": tmp}, 1800)
                    out = r.stdout.strip().splitlines()
                    print(f"    {c}: rc={r.returncode}", "CAUGHT" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "BROKEN",
                          " / ".join(x.strip() for x in out[1:-1] if "class" in x or "  " in x)[:300] if r.returncode == 1 else "", "|", out[-1][:110] if out else "", flush=True)
                    if r.returncode not in (0, 1):
                        print(r.stdout[-1500:])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
            shutil.rmtree(demo, ignore_errors=True)


sys.exit(main())
