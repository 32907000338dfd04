#!/usr/bin/env python3
"""Print what the last run of each check covered."""
import glob, json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sorted(glob.glob(os.path.join(root, "evidence", "*.json"))):
    e = json.load(open(f))
    if sys.argv[1:] and e["property"] not in sys.argv[1:]:
        continue
    c = e["coverage"]
    print("%s %s seed=%d wall=%.1f violations=%s" % (
        e["property"], e["tier"], e["seed"], e["wall_s"], e.get("violations")))
    for k, u in c.get("units", {}).items():
        print("   %-14s %7d run %7d nontrivial %7d distinct%s %s" % (
            k, u["evaluations"], u["nontrivial_evaluations"],
            u["distinct_nontrivial"],
            " STOPPED EARLY" if u["stopped_early"] else "", u["labels"]))
