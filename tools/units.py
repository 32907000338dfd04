#!/usr/local/bin/python3-vt
"""Rewrite the table of units at the end of DESIGN.md from the checks and the
evidence of their last run."""
import json
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
MARK = "<!-- units -->\n"

from pbt import core  # noqa: E402
from pbt.catalog import PROPS  # noqa: E402

out = []
for prop in PROPS:
    core.import_units(prop)
    with open(os.path.join(ROOT, "evidence", prop + ".json")) as f:
        evidence = json.load(f)
    units = evidence["coverage"]["units"]
    out.append("**%s** %s (about %d s)\n\n" % (
        prop, PROPS[prop]["title"], round(evidence["wall_s"])))
    for u in core.UNITS.values():
        if u.prop == prop:
            seen = units[u.name]
            out.append("- *%s*, %d %s, %d%% nontrivial: %s\n" % (
                u.name, seen["evaluations"], "enumerated" if u.enum else
                "generated", 100 * seen["nontrivial_evaluations"]
                // max(1, seen["evaluations"]),
                " ".join(u.check.__doc__.split())))
    out.append("\n")

path = os.path.join(ROOT, "DESIGN.md")
with open(path) as f:
    text = f.read()
if MARK not in text:
    text += "\n" + MARK
with open(path, "w") as f:
    f.write(text[:text.index(MARK)] + MARK + "\n" + "".join(out).rstrip()
            + "\n")
