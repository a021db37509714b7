#!/usr/bin/env python3
"""Records the harness times of the last runs (evidence/*.json) in costs.json, so that long harnesses start first."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "tools", "costs.json")
c = json.load(open(p)) if os.path.exists(p) else {}
for f in sorted(glob.glob(os.path.join(V, "evidence", "C*.json"))):
    e = json.load(open(f))
    d = c.setdefault(e["property"], {})
    for s in e["coverage"].get("harnesses", []):
        if s.get("ms"):
            d[s["harness"]] = round(s["ms"] / 1000, 1)
json.dump(c, open(p, "w"), indent=0, sort_keys=True)
