#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and of the checks in lib/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "lib", i.lower() + ".py")):
        n = NOTES[i]
        checks.append({"property": i, "quick_cmd": "./run.py check %s --tier quick" % i,
                       "thorough_cmd": "./run.py check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": n[0], "level": "model_checking",
                       "level_note": n[1]})
    else:
        na.append({"property": i, "reason": "the check of this property is not built yet"})
m = {"version": 1, "setup_cmd": "./run.py setup",
     "hooks": {"guard": "none", "enable": "no hook is needed: the checks use the public API only", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked by TLC; bound to the code by replaying specification transitions "
              "on the real code and by checking recorded traces of the real code against the specifications."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
