"""Write the generated part of DESIGN.md from design_tail.md, seeded/ and seeded_log.md."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
rows = ["| id | property | needs | caught by |", "|----|----|----|----|"]
S = os.path.join(V, "seeded")
res = json.load(open(os.path.join(H, "seeded_results.json"))) if os.path.exists(os.path.join(H, "seeded_results.json")) else {}
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), res.get(d, m["property"])))
t = open(os.path.join(H, "design_tail.md")).read()
t = t.replace("@SEEDED@", "\n".join(rows)).replace("@LOG@", open(os.path.join(H, "seeded_log.md")).read().strip())
p = os.path.join(V, "DESIGN.md")
head = open(p).read().split("\n## The driver\n")[0].rstrip() + "\n"
open(p, "w").write(head + t)
