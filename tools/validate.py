#!/usr/bin/env python3-vt
"""Check properties.jsonl, MANIFEST.json and evidence/*.json against the schemas in /root/.vp."""
import glob, json, os, jsonschema
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = {n: json.load(open("/root/.vp/%s.schema.json" % n)) for n in ("PROPERTIES", "MANIFEST", "EVIDENCE")}
for l in open(V + "/properties.jsonl"):
    jsonschema.validate(json.loads(l), S["PROPERTIES"])
jsonschema.validate(json.load(open(V + "/MANIFEST.json")), S["MANIFEST"])
for f in glob.glob(V + "/evidence/C*.json"):
    jsonschema.validate(json.load(open(f)), S["EVIDENCE"])
print("valid")
