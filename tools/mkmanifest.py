#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a module in vf/props is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TWIN = ("forward dataflow over rustc MIR: loop-summarising gated value numbering; the canonical value summary of the code must equal the one of a reference definition")
TECH = {}
NOTE = {}
exec(open(os.path.join(V, "tools", "techniques.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "vf/props", i.lower() + ".py")) and i not in NA:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
                       "technique": TECH.get(i, TWIN), "level": "other",
                       "level_note": NOTE.get(i, "universal over inputs as a static argument; floats are read as reals; not a machine-checked proof")})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 vf/facts.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
