#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the checks present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(HERE, "tools", "not_applicable.json")))
TECH = json.load(open(os.path.join(HERE, "tools", "techniques.json")))
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(HERE, "checks", p.lower() + ".py")) and p in TECH:
        checks.append({
            "property": p,
            "quick_cmd": "python3 run.py %s --tier quick" % p,
            "thorough_cmd": "python3 run.py %s --tier thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": TECH[p][0],
            "level": "exploration",
            "level_note": TECH[p][1],
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "All checks are property-based tests (Hypothesis) over generated inputs; see DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
