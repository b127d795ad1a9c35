"""Writes MANIFEST.json from properties.jsonl and the check modules."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(HERE, "tools", "technique.json")))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
checks = []
na = []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i + ".py")):
        t = TECH[i]
        checks.append(
            {
                "property": i,
                "quick_cmd": "python3 run.py %s" % i,
                "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": t[0],
                "level": "exploration",
                "level_note": t[1],
            }
        )
    else:
        na.append({"property": i, "reason": "no check has been built for it"})
json.dump(
    {
        "version": 1,
        "setup_cmd": "true",
        "checks": checks,
        "not_applicable": na,
        "notes": "Property-based testing with generated models, parameters, shocks and histories; see DESIGN.md. No hooks in /repo.",
    },
    open(os.path.join(HERE, "MANIFEST.json"), "w"),
    indent=1,
)
print(len(checks), "checks,", len(na), "not claimed")
