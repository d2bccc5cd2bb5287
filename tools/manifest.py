#!/usr/bin/env python3
"""Write MANIFEST.json from the checks that exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
NOTE = {}
exec(open(os.path.join(here, "tools", "notes.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []; na = []
for i in ids:
    if os.path.exists(os.path.join(here, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "technique": TECH.get(i, "runtime monitoring of real runs with an independent oracle"), "level": "exploration",
                       "level_note": NOTE.get(i, "every execution observed is judged; other inputs are not")})
    else: na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 -c 'import numpy'", "hooks": {"guard": "none", "enable": "no hooks: checks compile /repo's sources with their own drivers", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": "Every check compiles what it needs from /repo's working tree into /verif/build (ignored)."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
