#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table of checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/bin")
from checks import CHECKS
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        specs = sorted({m["module"] for m in c.get("mc", [])}); traces = sorted({r["trace"] for r in c["runs"]})
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py " + i, "thorough_cmd": "python3 bin/check.py " + i,
            "technique": "TLA+ model checking (TLC)" + (" of " + ", ".join(specs) if specs else "") + " + trace validation of the real code against " + ", ".join(traces),
            "level": "model_checking",
            "level_note": c.get("note") or "The design is checked exhaustively within the constants of its .cfg; the code is checked on every recorded history (counts in the evidence), each of which TLC must accept as a behaviour of the specification. Inputs outside the generated histories are not covered."})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks are compiled into /repo: template policies and the public API expose the observed state. See DESIGN.md."}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "unclaimed")
