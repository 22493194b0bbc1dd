#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = json.load(open(os.path.join(here, "tools", "checks.json")))
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [],
    "not_applicable": [],
    "notes": "Every check builds idmd from /repo's working tree into a private scratch directory and drives it over the network and its command line; see DESIGN.md.",
}
for c in CHECKS:
    m["checks"].append({
        "property": c["id"],
        "quick_cmd": "VERIF_TIER=quick bash run.sh " + c["id"],
        "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + c["id"],
        "evidence_file": "evidence/%s.json" % c["id"],
        "technique": c["technique"],
        "level": c.get("level", "exploration"),
        "level_note": c["note"],
    })
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
