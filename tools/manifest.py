#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "driver"))
import plans
checks = []
for pid, p in sorted(plans.PLANS.items()):
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 check.py {pid}",
        "thorough_cmd": f"python3 check.py {pid} --thorough",
        "technique": p.technique,
        "level": p.level,
        "level_note": p.note,
    })
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [{"property": i, "reason": "check under construction"} for i in ids if i not in plans.PLANS]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: the monitors observe the public interface, the allocator, sanitizers and interpreters."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
