"""Write a planted bug: mk(id, property, needs, what_it_breaks, [(file, old, new)], demo_py)."""
import json
import os
import shutil
import subprocess
import tempfile

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO_SH = """#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""


def mk(bug, prop, needs, breaks, edits, demo):
    d = tempfile.mkdtemp(prefix="mkbug-", dir="/tmp")
    repo = os.path.join(d, "repo")
    subprocess.check_call(["git", "clone", "-q", os.environ.get("REPO", "/repo"), repo])
    for f, old, new in edits:
        p = os.path.join(repo, f)
        s = open(p).read()
        assert s.count(old) == 1, (bug, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", repo, "diff"], text=True)
    assert diff
    out = os.path.join(SEEDED, bug)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    open(os.path.join(out, "demo.py"), "w").write(demo.lstrip("\n"))
    with open(os.path.join(out, "meta.json"), "w") as f:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
        f.write("\n")
    shutil.rmtree(d)
