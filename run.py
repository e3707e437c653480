#!/usr/bin/env python3
"""Entry point of every check.

    run.py C01                      quick or thorough run (VERIF_TIER), seed VERIF_SEED
    run.py C01 --replay FILE        execute one recorded plan; exit 1 if it still fails
    run.py C01 --digests N [--jobs J]   print the event-log digest of the first N seeds
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from sim import env  # noqa

if os.environ.get("VERIF_SIM") != "1" and "--server" not in sys.argv:
    env.reexec([os.path.abspath(__file__), *sys.argv[1:]],
               extra={"PYTHONHASHSEED": os.environ["VERIF_HASHSEED"]} if "VERIF_HASHSEED" in os.environ else None)


def main(argv):
    import argparse
    import importlib

    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--digests", type=int)
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--server", action="store_true")
    a = ap.parse_args(argv)
    try:
        env.load()
        if a.selftest:
            from sim import selftest

            return selftest.main()
        check = importlib.import_module("sim.checks." + a.prop.lower())
        from sim import runner, sched

        if hasattr(check, "prepare"):
            check.prepare()
        sched._codes = sched.pyirf_code_objects()
        if a.server:
            return check.serve()
        if a.replay:
            return runner.replay(check, a.replay)
        if a.digests:
            import tempfile, shutil

            base = tempfile.mkdtemp(prefix="verif-sim-", dir="/tmp")
            got = {}
            try:
                for res in runner.search(check, a.seed, a.tier, a.digests, 3600, a.jobs or 8, base):
                    got[res["i"]] = res.get("digest") or "HARNESS " + str(res.get("text"))[-300:]
            finally:
                shutil.rmtree(base, ignore_errors=True)
            for i in sorted(got):
                print(i, got[i])
            return 0
        tier = a.tier if a.tier in ("quick", "thorough") else "quick"
        return runner.run_check(check, tier, a.seed, a.runs, a.wall, a.jobs, not a.no_evidence)
    except SystemExit:
        raise
    except BaseException:  # noqa
        import traceback

        print("HARNESS ERROR\n" + traceback.format_exc(), flush=True)
        return 2


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
