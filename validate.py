#!/opt/veriftools/pyvenv/bin/python
"""Validate the committed metadata against the schemas (development aid)."""
import json, jsonschema, glob
d = "/root/.vp/"
man = json.load(open(d + "MANIFEST.schema.json")); prop = json.load(open(d + "PROPERTIES.schema.json")); ev = json.load(open(d + "EVIDENCE.schema.json"))
jsonschema.validate(json.load(open("/verif/MANIFEST.json")), man)
ps = [json.loads(x) for x in open("/verif/properties.jsonl")]
for p in ps:
    jsonschema.validate(p, prop)
for f in glob.glob("/verif/evidence/*.json"):
    jsonschema.validate(json.load(open(f)), ev)
print("ok", len(ps))
