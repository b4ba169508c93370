#!/usr/bin/env python3-vt
"""Developer tool: run the units of some groups and print the outcome."""
import importlib, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from pyvc import runner

mods = sys.argv[1].split(",")
flt = sys.argv[2] if len(sys.argv) > 2 else ""
us = []
for m in mods:
    us += importlib.import_module("units." + m).units()
us = [u for u in us if flt in u.name]
if os.environ.get("ONE"):
    rs = [runner.run_unit(u) for u in us]
else:
    rs = runner.run_units(us)
bad = 0
for r in rs:
    print("%-46s %-11s ob %4d/%-4d paths %4d q %5d solver %6.1fs wall %6.1fs %s"
          % (r.name, r.status, r.discharged, r.obligations, r.paths,
             r.queries, r.solver_s, r.wall_s, r.reason))
    if r.status != "ok":
        bad += 1
    for n, t in r.failures[:int(os.environ.get("NF", "3"))]:
        print("   FAILED", n)
        print("      " + t.replace("\n", "\n      ")[:int(os.environ.get("TL", "1500"))])
print("units", len(rs), "not ok", bad)
