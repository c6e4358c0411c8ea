"""add_fix.py PROPERTY COMMIT 'what failed': record a repair, unless it is there."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fixes.json")
t = json.load(open(p))
e = [sys.argv[1], sys.argv[2], sys.argv[3]]
if e not in t:
    t.append(e)
json.dump(t, open(p, "w"), indent=1, ensure_ascii=False)
