#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of families (run after changing which properties are claimed)."""
import json
from pathlib import Path

from families import FAMILIES, LEVEL, LEVELS, NOTES, REASONS

VERIF = Path(__file__).resolve().parent.parent
props = [json.loads(line) for line in open(VERIF / "properties.jsonl")]
doc = {
    "version": 1,
    "setup_cmd": "bash harness/setup.sh",
    "checks": [], "not_applicable": [],
}
for p in props:
    i = p["id"]
    if i in FAMILIES:
        doc["checks"].append({
            "property": i,
            "quick_cmd": f"python3 harness/check.py {i} quick",
            "thorough_cmd": f"python3 harness/check.py {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": NOTES[i][0], "level": LEVELS.get(i, LEVEL), "level_note": NOTES[i][1],
        })
    else:
        doc["not_applicable"].append({"property": i, "reason": REASONS.get(i, "no check yet")})
(VERIF / "MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")
