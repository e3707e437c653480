"""Helper to write /verif/seeded/<id>: used as `from mkbug import bug`."""
import json
import os
import shutil
import subprocess
import tempfile
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 if the property holds
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 SETUPTOOLS_SCM_PRETEND_VERSION=0.14.0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$here/demo.py"
'''


def bug(id, prop, edits, demo, needs, breaks):
    """edits: [(file, old, new)], applied to /repo's HEAD; demo: python source, fails (AssertionError) with the change."""
    d = os.path.join(HERE, "seeded", id)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp()
    try:
        subprocess.run(["git", "clone", "-q", "/repo", tmp + "/r"], check=True)
        for f, old, new in edits:
            p = os.path.join(tmp, "r", f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=tmp + "/r", check=True, capture_output=True, text=True).stdout
        assert diff
        open(os.path.join(d, "patch.diff"), "w").write(diff)
    finally:
        shutil.rmtree(tmp)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(textwrap.dedent(demo).lstrip())
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
