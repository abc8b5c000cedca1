#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in properties.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from properties import PROPERTIES, NOT_APPLICABLE, NOTES
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPERTIES:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}, ensure_ascii=False) + "\n")
checks = [{
    "property": p["id"],
    "quick_cmd": "./check.sh %s" % p["id"],
    "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % p["id"],
    "technique": p["technique"],
    "level": "exploration",
    "level_note": p["level_note"],
} for p in PROPERTIES]
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": NOT_APPLICABLE, "notes": NOTES}, f, indent=1, ensure_ascii=False)
    f.write("\n")
import jsonschema
m = json.load(open(os.path.join(root, "MANIFEST.json")))
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)
    jsonschema.validate(p, s)
    if p["statement"].count(". ") > 2:
        print("more than three sentences?", p["id"])
print(len(PROPERTIES), "properties")
