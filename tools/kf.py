#!/usr/bin/env python3
"""Prints the list of fix commits that are not yet recorded in KNOWN_FINDINGS.json."""
import json, subprocess
from pathlib import Path
V = Path(__file__).resolve().parent.parent
d = json.loads((V/"KNOWN_FINDINGS.json").read_text())
rec = " ".join(d["fixed"])
for l in subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines():
    h, s = l.split(" ",1)
    if s.startswith("fix:") and h not in rec:
        print(h, s)
import sys
if len(sys.argv) > 1:
    # kf.py add <<< lines "PROP hash what failed"
    for l in sys.stdin:
        p, h, w = l.rstrip("\n").split(" ", 2)
        if h not in " ".join(d["fixed"]):
            d["fixed"].append(f"fixed: property={p} {h} {w}")
    (V/"KNOWN_FINDINGS.json").write_text(json.dumps(d, indent=1, ensure_ascii=False) + "\n")
