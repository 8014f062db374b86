"""Writes MANIFEST.json from the properties and the harness modules."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
NA = json.load(open(os.path.join(ROOT, "tools", "not_applicable.json")))

props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(ROOT, "harness", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": "%s check.py %s quick" % (PY, i),
            "thorough_cmd": "%s check.py %s thorough" % (PY, i),
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the Python source + z3, "
            "counterexamples replayed on the real code",
            "level": "model_checking",
            "level_note": "Bounded: holds for every input within the bounds "
            "listed per case in the evidence file (sizes, value ranges), "
            "floats modelled as reals with a 1e-6 margin; nothing is claimed "
            "beyond the bounds. Trusts z3, the numpy model in "
            "engine/npshim.py (cross-checked by re-running path models on "
            "the real code) and the oracle in the harness.",
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
json.dump(
    {
        "version": 1,
        "setup_cmd": "%s check.py --selftest" % PY,
        "checks": checks,
        "not_applicable": na,
        "notes": "check.py <property> [quick|thorough] [case,...]. "
        "No hooks are needed in /repo.",
    },
    open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
