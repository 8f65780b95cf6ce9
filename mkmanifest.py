#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json
import os

from props import NOT_APPLICABLE, PROPS

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl")) as f:
    ids = [json.loads(line)["id"] for line in f if line.strip()]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s thorough" % i,
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p.get(
            "note", "Generated-input search against an explicit oracle; see "
            "DESIGN.md."),
    })
manifest = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "checks": checks,
    "not_applicable": [
        {"property": i, "reason": NOT_APPLICABLE.get(
            i, "Not decided yet: its check is not built.")}
        for i in ids if i not in PROPS],
    "notes": "Property-based testing with an engine of its own "
             "(harness/pbt.cc); see DESIGN.md.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
