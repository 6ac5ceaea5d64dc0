"""Writes MANIFEST.json from the registered harnesses."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from sx import harness
harness.load_all()
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in harness.REG:
        na.append({"property": i, "reason": "no harness yet"})
        continue
    n = len(harness.configs(i, "quick"))
    t = len(harness.configs(i, "thorough"))
    note = harness.META.get(i, {}).get("note", "")
    checks.append({
        "property": i,
        "quick_cmd": "/opt/venv/bin/python check.py %s --tier quick" % i,
        "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "symbolic execution of the Python source with z3 (all paths, all values within the bounds), counterexamples replayed on the real code",
        "level": "model_checking",
        "level_note": ("Bounded: every path and every real/integer value in %d (quick) / %d (thorough) configurations whose sizes are listed in the evidence file; sizes beyond them are not covered. "
                       "Trusts the numpy/scipy/file models of sx/ (cross-checked by concrete runs of the real code in the same check), exact real arithmetic instead of floats, and the stand-ins for the empty bdld.helpers submodule. %s" % (n, t, note)).strip(),
    })
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the modules are loaded from source with replaced imports. Repairs of defects are the fix: commits listed in known-findings.json."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), len(na))
