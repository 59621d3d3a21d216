#!/usr/bin/env python3
"""Writes MANIFEST.json from checkdefs/ and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
na = {}
p = H + "/tools/not_applicable.json"
if os.path.exists(p): na = json.load(open(p))
m = {"version": 1, "setup_cmd": "python3 -c \"import checks, run\" && g++ --version >/dev/null", "checks": [], "not_applicable": []}
h = H + "/tools/hooks.json"
if os.path.exists(h): m["hooks"] = json.load(open(h))
for q in props:
    i = q["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": c.technique, "level": c.level, "level_note": c.note})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "check not built yet")})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
