#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from pbt/catalog.py.

Only properties that have a check module under pbt/props are put in either
file's list of claims; running this twice gives the same bytes.
"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from pbt.catalog import PROPS  # noqa: E402

props = os.path.join(ROOT, "pbt", "props")
have = {f[:3].upper() for f in os.listdir(props) if f.startswith("p")}

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS.values():
        f.write(json.dumps({k: v for k, v in p.items() if k != "note"}) + "\n")

manifest = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "./check %s" % p["id"],
        "thorough_cmd": "./check %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "property-based testing (Hypothesis) with exhaustive "
                     "small-scope enumeration against independent oracles",
        "level": "exploration",
        "level_note": p["note"],
    } for p in PROPS.values() if p["id"] in have],
    "not_applicable": [{
        "property": p["id"],
        "reason": "Check not built yet.",
    } for p in PROPS.values() if p["id"] not in have],
    "notes": "No hooks in /repo: everything is observed through the public "
             "interface. VERIF_TIER selects the depth. Replay a violation with "
             "./check --replay FILE. Findings are in known_findings.txt.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print("%d properties, %d checks" % (len(PROPS), len(manifest["checks"])))
