"""write MANIFEST.json for the properties with a harness module"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]
PY = "/opt/venv/bin/python"
NOTE = (
    "Symbolic execution of the real functions of /repo (reloaded from source on every run); every path within the "
    "bounds in evidence coverage.bounds is decided by z3 (cvc5 as a second solver), over the reals with snapped "
    "constants; counterexamples are replayed on the unmodified code in floating point before they are reported."
)
checks = []
for i in ids:
    if not os.path.exists(os.path.join(ROOT, "harness", i.lower() + ".py")):
        continue
    checks.append(
        {
            "property": i,
            "quick_cmd": "%s check.py %s quick" % (PY, i),
            "thorough_cmd": "%s check.py %s thorough" % (PY, i),
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the implementation, SMT solver verdict per path, counterexample replay",
            "level": "model_checking",
            "level_note": NOTE,
        }
    )
m = {
    "version": 1,
    "setup_cmd": "%s check.py --selftest" % PY,
    "checks": checks,
    "not_applicable": [],
    "notes": "Commands run in /verif and read the code under test from /repo (override with VERIF_REPO).",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
