"""Regenerate /verif/MANIFEST.json from the properties and the check modules."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, "/repo"]
checks = []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    mod = importlib.import_module("checks." + p["id"].lower())
    assert mod.PROPERTY == p["id"]
    n = sum(s.quick for s in mod.SUBS)
    t = sum(s.thorough for s in mod.SUBS)
    checks.append(
        {
            "property": p["id"],
            "quick_cmd": "./check.sh %s" % p["id"],
            "thorough_cmd": "./check.sh %s" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": getattr(mod, "TECHNIQUE", "property-based testing (generated inputs, explicit oracle, shrinking)"),
            "level": "exploration",
            "level_note": getattr(mod, "LEVEL_NOTE", "")
            or "About %d generated cases per quick run and %d per thorough run over %d sub-checks; no violation found on them. "
            "Trusts the generators' stated domain and the oracle described in DESIGN.md." % (n, t, len(mod.SUBS)),
        }
    )
man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "Every check is property-based testing: Hypothesis generates inputs from VERIF_SEED, an explicit oracle decides them, "
    "failures are shrunk to a JSON replay file that is re-run with ./check.sh <ID> --replay FILE. No hooks are needed in /repo.",
}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks))
