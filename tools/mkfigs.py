#!/usr/bin/env python3
"""Copies the figures of the current evidence files (clean runs only) into tools/design_figures.json."""
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
F = V / "tools" / "design_figures.json"
d = json.loads(F.read_text()) if F.exists() else {}
for e in sorted((V / "evidence").glob("C*.json")):
    x = json.loads(e.read_text()); c = x["coverage"]
    if x["violations"]: continue
    d.setdefault(x["property"], {})[x["tier"]] = dict(states=c["states"], transitions=c["transitions"], cases=c["traces_validated_against_impl"], comparisons=c["comparisons"], wall=round(x["wall_s"]))
F.write_text(json.dumps(d, indent=1, sort_keys=True) + "\n")
