#!/usr/bin/env python3
"""tools/known.py fixed <Cxx> <commit> <text> | finding <Cxx> <id> <regex> <text>  -- maintain known_findings.json by hand"""
import sys, json
from pathlib import Path
p = Path(__file__).resolve().parent.parent / "known_findings.json"
d = json.loads(p.read_text())
if sys.argv[1] == "fixed":
    d["fixed"].append("fixed: property=%s %s %s" % tuple(sys.argv[2:5]))
else:
    d["findings"].append(dict(property=sys.argv[2], id=sys.argv[3], match=sys.argv[4], what=sys.argv[5]))
p.write_text(json.dumps(d, indent=1) + "\n")
