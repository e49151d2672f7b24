"""Writes MANIFEST.json from the list of checks."""
import json
import os

from checks import CHECKS

HERE = os.path.dirname(os.path.abspath(__file__))
NA = {}
props = [json.loads(x) for x in open(os.path.join(HERE, "..", "properties.jsonl"))]
checks = []
for p in props:
    c = CHECKS.get(p["id"])
    if c is None:
        NA.setdefault(p["id"], "check not built yet")
        continue
    note = c.get("note", "Every behaviour explored is generated by the Quint specification with 192-bit fixed-point predictions and replayed "
                 "into the code under /repo; the specification's own laws are checked on every state. Random exploration: "
                 "seeded, not exhaustive. Trusted: the specification's transcription of the published formulas and the tolerances "
                 "derived from conditioning.")
    checks.append({"property": p["id"],
                   "quick_cmd": "python3 harness/run.py --property %s --tier quick" % p["id"],
                   "thorough_cmd": "python3 harness/run.py --property %s --tier thorough" % p["id"],
                   "technique": c.get("technique", "Quint specification, simulated behaviours replayed into the code (model-based testing), laws as invariants"),
                   "level": c["level"], "level_note": note})
m = {"version": 1,
     "setup_cmd": "bash harness/setup.sh",
     "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "notes": "No hooks in /repo: every observation goes through public attributes and return values."}
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
