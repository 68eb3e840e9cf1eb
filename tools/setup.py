#!/usr/bin/env python3
"""Builds the drivers and parses every specification module"""
import os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import check
from plan import PLAN
for crate in sorted({p.get("crate", "core") for p in PLAN.values()}):
    try:
        print(check.build(crate))
    except check.ToolError as ex:
        print("WARNING: the driver of the %s crate does not build: %s" % (crate, ex))
        if crate == "core":
            raise
mods = sorted({m["module"] for p in PLAN.values() for m in p["design"]} | {p["trace"] for p in PLAN.values()})
bad = 0
for m in mods:
    r = subprocess.run(["java", "-cp", check.JARS, "tla2sany.SANY", m + ".tla"], cwd=os.path.join(ROOT, "spec"), capture_output=True, text=True)
    if r.returncode or "Fatal" in r.stdout or "*** Errors" in r.stdout:
        print(r.stdout[-3000:])
        bad = 1
print(len(mods), "specification modules parsed")
sys.exit(bad)
