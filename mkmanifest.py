#!/usr/bin/env python3
"""Regenerates MANIFEST.json from props.json (claimed checks) and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
P = json.load(open(os.path.join(H, "props.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl")) if l.strip()]
PEND = "check not built yet (work in progress); the technique applies"
m = {"version": 1, "setup_cmd": "python3 build.py",
     "checks": [], "not_applicable": [],
     "notes": "All checks: python3 check.py ID. Replay a violation: python3 check.py --replay replays/<file>."}
for i in ids:
    if i in P and not P[i].get("off"):
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": P[i]["technique"], "level": P[i]["level"], "level_note": P[i]["level_note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": PEND})
open(os.path.join(H, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
