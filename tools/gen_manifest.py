#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties in CLAIMED."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = open(os.path.join(V, "tools", "claimed.txt")).read().split()
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "sh setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                            "technique": "TLA+ specification checked with TLC; conformance by validating recorded behaviour of the real code (and replayed model-generated scenarios) against it with TLC",
                            "level": "model_checking", "level_note": NOTES.get(i, NOTES["default"])})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
