#!/opt/veriftools/pyvenv/bin/python
import json, glob, jsonschema
S = lambda n: json.load(open("/root/.vp/%s.schema.json" % n))
jsonschema.validate(json.load(open("/verif/MANIFEST.json")), S("MANIFEST"))
for l in open("/verif/properties.jsonl"):
    jsonschema.validate(json.loads(l), S("PROPERTIES"))
for f in glob.glob("/verif/evidence/*.json"):
    jsonschema.validate(json.load(open(f)), S("EVIDENCE"))
m = json.load(open("/verif/MANIFEST.json"))
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
got = [c["property"] for c in m["checks"]] + [c["property"] for c in m["not_applicable"]]
assert sorted(ids) == sorted(got), set(ids) ^ set(got)
print("valid", len(m["checks"]), "checks")
