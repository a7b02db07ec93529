#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
sys.dont_write_bytecode = True
import check
from vp.techniques import TECH, HOOKS, NOTES, NA
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py setup"}
if HOOKS:
    m["hooks"] = HOOKS
m["checks"] = []
m["not_applicable"] = []
for p in props:
    i = p["id"]
    if i in check.CHECKS and i in TECH:
        t, note = TECH[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not built yet")})
if NOTES:
    m["notes"] = NOTES
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
