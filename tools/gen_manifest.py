#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import PLAN, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    pid = p["id"]
    if pid not in PLAN:
        continue
    pl = PLAN[pid]
    checks.append({
        "property": pid,
        "quick_cmd": "python3 tools/check.py %s --tier quick" % pid,
        "thorough_cmd": "python3 tools/check.py %s --tier thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": "TLA+ specification checked with TLC (%s), real executions validated against it (%s)" % (
            ", ".join(sorted({m["module"] for m in pl["design"]})) or "trace specification only", pl["trace"]),
        "level": "model_checking",
        "level_note": pl.get("note", "The design model is explored exhaustively within its constants; the code is judged on the recorded executions only. Trusts TLC, the driver's recording of arguments and results, and fixed-point rounding within the tolerance stated in the specification."),
    })
na = [{"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "not built yet")} for p in props if p["id"] not in PLAN]
json.dump({
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: everything the specifications talk about is visible in the public API. TLA+ with TLC. See DESIGN.md.",
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
