"""add_technique.py ID 'technique' 'note': set the entry of a property in techniques.json."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "techniques.json")
t = json.load(open(p))
t[sys.argv[1]] = [sys.argv[2], sys.argv[3]]
open(p, "w").write("{\n" + ",\n".join(json.dumps(k) + ": " + json.dumps(t[k]) for k in sorted(t)) + "\n}\n")
