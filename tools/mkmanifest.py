#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/run.py build",
     "hooks": {"guard": "none", "enable": "no hooks are needed: the checks compile /repo's sources unchanged", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "Explicit-state exploration of the real library code; see DESIGN.md. thorough explores the same spaces with larger alphabets and depths."}
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        m["not_applicable"].append({"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "no check has been built for it yet")})
        continue
    m["checks"].append({
        "property": p["id"], "quick_cmd": "python3 tools/run.py check %s quick" % p["id"], "thorough_cmd": "python3 tools/run.py check %s thorough" % p["id"],
        "technique": c.get("technique", "stateless model checking: exhaustive exploration of the real code against an independent reference model"),
        "level": c.get("level", "model_checking"),
        "level_note": c.get("note", c["explanation"] + " Assumes the alphabets and depths are representative (bounded exploration), g++ -O1 with AddressSanitizer, and the reference model in harness/ref.hpp.")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print("%d checks, %d not claimed" % (len(m["checks"]), len(m["not_applicable"])))
