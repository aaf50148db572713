#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the one table in tools/table.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from table import PROPS, NOT_APPLICABLE
root = os.path.dirname(here)
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
na = {x["property"] for x in NOT_APPLICABLE}
man = {"version": 1, "setup_cmd": "bash run.sh build", "checks": [
    {"property": p["id"], "quick_cmd": f"bash run.sh check {p['id']} quick", "thorough_cmd": f"bash run.sh check {p['id']} thorough",
     "technique": p["technique"], "level": "exploration", "level_note": p["level_note"]} for p in PROPS if p["id"] not in na],
    "not_applicable": NOT_APPLICABLE,
    "notes": "No hooks: everything is reached through the crate's public API and its program entry point."}
json.dump(man, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(root + "/MANIFEST.json", "a").write("\n")
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(root + "/properties.jsonl"):
        jsonschema.validate(json.loads(l), sch)
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("schemas ok", len(PROPS))
except ImportError:
    print("run with python3-vt to validate")
