#!/usr/bin/env python3
"""regenerates MANIFEST.json from the rules present and the table below"""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = json.load(open(os.path.join(HERE, "techniques.json")))
NA = TECH["not_applicable"]
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(HERE, "rules", p.lower() + ".py")):
        t = TECH["checks"][p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "evidence_file": "evidence/%s.json" % p,
                       "technique": t["technique"], "level": "other", "level_note": t["note"]})
    else:
        na.append({"property": p, "reason": NA.get(p, "no sound static decision built yet")})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
