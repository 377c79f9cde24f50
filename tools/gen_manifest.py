#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {}
try:
    from not_applicable import NA
except ImportError: pass
m = {"version": 1,
     "setup_cmd": "bash tools/setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                 "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                 "technique": CHECKS[p["id"]]["technique"], "level": CHECKS[p["id"]]["level"],
                 "level_note": CHECKS[p["id"]]["note"]} for p in props if p["id"] in CHECKS],
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "no check yet")} for p in props if p["id"] not in CHECKS]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
