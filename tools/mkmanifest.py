#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of existing checks."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
T = {}
NOTE = {}
exec((V / "tools" / "techniques.py").read_text())
props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines() if x.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / "mc" / f"{i.lower()}.py").exists() and i in T:
        checks.append(
            {
                "property": i,
                "quick_cmd": f"./check {i}",
                "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
                "technique": T[i],
                "level": "model_checking",
                "level_note": NOTE[i],
            }
        )
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks}
if na:
    m["not_applicable"] = na
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", [x["property"] for x in na])
