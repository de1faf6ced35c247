#!/usr/bin/env python3
"""Writes MANIFEST.json from meta.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
import meta
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i not in meta.CHECKS:
        na.append({"property": i, "reason": meta.NA[i]})
        continue
    m = meta.CHECKS[i]
    checks.append({"property": i, "quick_cmd": "python3 run_check.py %s quick" % i, "thorough_cmd": "python3 run_check.py %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": m["technique"], "level": m["level"],
                   "level_note": "Complete within its bounds (quick: %s; thorough: %s). %s%sTrusts the reference model in harness/, the compiler and Eigen." % (m["q"], m["t"], m["note"], " " if m["note"] else "")})
assert set(meta.CHECKS) <= set(ids)
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the harnesses reach everything through public and protected interfaces. DESIGN.md describes each check; known_findings.txt lists repaired defects."},
          open(H + "/MANIFEST.json", "w"), indent=1)
