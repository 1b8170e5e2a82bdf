#!/usr/bin/env python3
"""Regenerates MANIFEST.json from analysis/plan.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "analysis"))
import plan
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for i in ids:
    if i in plan.RULES:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"python3 check.py {i} --thorough",
            "technique": plan.TECH.get(i, plan.TECH_ALL),
            "level": plan.LEVEL.get(i, "other"),
            "level_note": plan.NOTE.get(i, plan.NOTE_ALL),
        })
na = [{"property": i, "reason": plan.NOT_APPLICABLE.get(i, "no check has been built yet")} for i in ids if i not in plan.RULES]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Static analysis of /repo's current MIR (nightly rustc_private driver, python abstract interpreter). No hooks in /repo; the fix: commits there repair genuine defects (known-findings.txt)."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
