#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the list of finished checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BLACK = "the real ludtwig binary, rebuilt from /repo, is run on every enumerated state"
T = {}
exec(open(os.path.join(V, "tools", "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [
  {"property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough",
   "technique": T[p][0], "level": "model_checking", "level_note": T[p][1]}
  for p in props if p in T],
 "not_applicable": [{"property": p, "reason": "the check for this property is not finished yet"} for p in props if p not in T],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
