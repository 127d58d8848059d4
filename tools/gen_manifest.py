#!/usr/bin/env python3
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
units = json.loads((V/"units.json").read_text())
props = [json.loads(l) for l in (V/"properties.jsonl").read_text().splitlines() if l.strip()]
checks, na = [], []
for p in props:
    u = units.get(p["id"])
    if not u:
        na.append(dict(property=p["id"], reason="no check registered yet: the explorer for this property is still being built")); continue
    checks.append(dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']} --tier quick", thorough_cmd=f"python3 run.py {p['id']} --tier thorough",
        technique=u["technique"], level=u.get("level", "model_checking"), level_note=u["note"], evidence_file=f"evidence/{p['id']}.json"))
m = dict(version=1, setup_cmd="mkdir -p build evidence replay", checks=checks, not_applicable=na)
(V/"MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
