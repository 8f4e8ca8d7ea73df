"""Maintain the planted bugs under /verif/seeded.

  plant.py verify [--no-tests] ID...   demo on the clean and the patched copy, stable tests on the patched copy
  plant.py catch ID... [--checks C01,C02]  run checks against a patched copy
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
PY = "/opt/venv/bin/python"
ENV = dict(
    os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig",
    OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1", NUMEXPR_MAX_THREADS="1",
)


def copy_repo(tag):
    d = tempfile.mkdtemp(prefix="plant-%s-" % tag, dir="/tmp")
    repo = os.path.join(d, "repo")
    subprocess.check_call(["cp", "-a", os.environ.get("REPO", "/repo"), repo])
    return d, repo


def demo(bug, repo):
    return subprocess.run(
        ["bash", os.path.join(SEEDED, bug, "demo.sh")], cwd=repo, env=ENV, timeout=300, capture_output=True, text=True
    )


def apply(bug, repo):
    subprocess.check_call(["git", "-C", repo, "apply", os.path.join(SEEDED, bug, "patch.diff")])


def tests(repo, d):
    QPD = "pdf_J_QPD_S or qpd_regression"
    MQ = "multiplicative_quantile"
    AQ = "additive or mad"
    shards = {
        "qpd": ["tests/test_integration.py", "-k", QPD],
        "mq": ["tests/test_integration.py", "-k", "not (%s) and %s" % (QPD, MQ)],
        "aq": ["tests/test_integration.py", "-k", "not (%s) and not %s and (%s)" % (QPD, MQ, AQ)],
        "int": ["tests/test_integration.py", "-k", "not (%s) and not %s and not (%s)" % (QPD, MQ, AQ)],
        "rest": ["tests", "--ignore=tests/test_integration.py"],
    }
    procs = []
    for n, a in shards.items():
        procs.append(
            subprocess.Popen(
                [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=600", "-o", "junit_family=xunit2",
                 "--junitxml=%s/%s.xml" % (d, n)] + a,
                cwd=repo, env=dict(ENV, PYTHONPATH=repo), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
            )
        )
    for p in procs:
        p.wait()
    bad, n = [], 0
    for s in shards:
        for tc in ET.parse("%s/%s.xml" % (d, s)).getroot().iter("testcase"):
            n += 1
            if any(c.tag in ("failure", "error") for c in tc):
                bad.append("%s::%s" % (tc.get("classname"), tc.get("name")))
    return n, [b for b in bad if "test_qpd_regression" not in b]


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    notests = "--no-tests" in args
    checks = None
    if "--checks" in args:
        i = args.index("--checks")
        checks = args[i + 1].split(",")
        del args[i : i + 2]
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(SEEDED))
    for bug in ids:
        d, repo = copy_repo(bug)
        try:
            meta = json.load(open(os.path.join(SEEDED, bug, "meta.json")))
            if cmd == "verify":
                r0 = demo(bug, repo)
                apply(bug, repo)
                r1 = demo(bug, repo)
                msg = "clean=%d patched=%d" % (r0.returncode, r1.returncode)
                if r0.returncode != 0 or r1.returncode == 0:
                    msg += " DEMO-BAD\n" + (r0.stdout + r0.stderr)[-1500:] + "\n--\n" + (r1.stdout + r1.stderr)[-800:]
                if not notests:
                    n, bad = tests(repo, d)
                    msg += " tests=%d failing=%r" % (n, bad[:6])
                    if bad:
                        msg += " TESTS-BAD"
                print(bug, msg, flush=True)
            else:
                apply(bug, repo)
                for c in checks or [meta["property"]]:
                    r = subprocess.run(
                        [os.path.join(ROOT, "check.sh"), c], cwd=ROOT, capture_output=True, text=True,
                        env=dict(os.environ, CBV_REPO=repo, VERIF_TIER="quick", VERIF_SEED=os.environ.get("VERIF_SEED", "1"),
                                 CBV_EVIDENCE=d, CBV_REPLAYS=d),
                    )
                    line = [x for x in r.stdout.splitlines() if "/" in x][:1]
                    print(bug, c, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR %d" % r.returncode),
                          (line[0][:160] if line else r.stderr[-500:]), flush=True)
        finally:
            shutil.rmtree(d)


main()
