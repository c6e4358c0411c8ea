"""Write known_findings.json from fixes.json (repaired defects) and open_findings.json (recorded ones)."""
import json, os
d = os.path.dirname(os.path.abspath(__file__))
out = []
for n, (pid, commit, what) in enumerate(json.load(open(os.path.join(d, "fixes.json")))):
    out.append({"property": pid, "id": "fixed-" + commit, "status": "fixed", "what": what, "line": "fixed: property=%s %s %s" % (pid, commit, what)})
p = os.path.join(d, "open_findings.json")
if os.path.exists(p):
    for f in json.load(open(p)):
        out.append(dict(f, status="open"))
json.dump({"findings": out}, open(os.path.join(d, "..", "known_findings.json"), "w"), indent=1, ensure_ascii=False)
