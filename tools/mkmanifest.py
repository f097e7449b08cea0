#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of checks (props.py) and the list of properties."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE  # noqa: E402

ids = [json.loads(line)["id"] for line in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for i in ids:
    if i in PROPS:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
            "technique": PROPS[i].get("technique", "TLA+ specification checked with TLC; histories recorded from the real code replayed against it"),
            "level": "model_checking",
            "level_note": PROPS[i].get("note", PROPS[i]["rule"]),
        })
manifest = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")} for i in ids if i not in PROPS],
    "notes": "One TLA+ specification (spec/), one driver crate (harness/), one runner (check.py). No hooks in /repo are needed: "
             "everything is observed at the public API.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
