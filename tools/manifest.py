#!/usr/bin/env python3
"""Writes MANIFEST.json from driver/config.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "driver"))
from config import PROPS, NOT_APPLICABLE
checks = []
for p in sorted(PROPS):
    c = PROPS[p]
    checks.append({
        "property": p,
        "quick_cmd": "python3 driver/check.py %s quick" % p,
        "thorough_cmd": "python3 driver/check.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": c.get("technique", "bounded stand-in: concrete harness against an independent oracle"),
        "level": c["level"],
        "level_note": c.get("note", "bounded: random cases compared with an independent oracle; nothing proved"),
    })
m = {"version": 1, "setup_cmd": "python3 driver/setup.py", "checks": checks, "not_applicable": NOT_APPLICABLE,
     "notes": "No hooks in /repo: contracts and harnesses are put beside the source through build overlays. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
