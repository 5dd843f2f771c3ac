#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, state=None, level="model_checking"):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b} for a, b in state]
    P.append((d, technique, note, level))


exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d, *_ in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
checks = []
for d, tech, note, level in P:
    if tech is None:
        continue
    checks.append({"property": d["id"], "quick_cmd": "/opt/venv/bin/python check.py %s quick" % d["id"],
                   "thorough_cmd": "/opt/venv/bin/python check.py %s thorough" % d["id"],
                   "evidence_file": "evidence/%s.json" % d["id"], "technique": tech, "level": level,
                   "level_note": note})
na = [{"property": d["id"], "reason": note} for d, tech, note, level in P if tech is None]
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": NOTES}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
