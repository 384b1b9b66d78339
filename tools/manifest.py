"""Writes ../MANIFEST.json from the properties and the plan of the checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
sys.dont_write_bytecode = True
from plan import PLAN, describe

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        tech, note = describe(i)
        checks.append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "bin/check %s thorough" % i, "technique": tech,
                       "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": "not built yet"})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks use only exported API of /repo. TLA+ specifications in specs/, Go drivers in harness/."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
