#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(V, "harness"))
import checks
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
                 "technique": NOTES[p][0], "level": "model_checking", "level_note": NOTES[p][1]}
                for p in props if p in checks.CHECKS],
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in checks.CHECKS]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
