#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/config.py (claimed properties) and tools/notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools")); sys.path.insert(0, os.path.join(V, "checks"))
from config import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 checks/run.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py %s" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", "runtime monitoring: randomized workloads on the real code, independent reference oracle, sanitizers"),
                            "level": "exploration", "level_note": c.get("note", "Every observed execution is judged by an independent oracle; bounded by the generated workloads.")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", [x["property"] for x in m["not_applicable"]])
