#!/usr/bin/env python3
"""python3-vt tools/validate.py: checks manifest, properties and evidence against the schemas."""
import json, jsonschema, glob, os
L = lambda p: json.load(open(p))
s = "/root/.vp/%s.schema.json"
jsonschema.validate(L("/verif/MANIFEST.json"), L(s % "MANIFEST"))
ps = [json.loads(l) for l in open("/verif/properties.jsonl")]
for p in ps: jsonschema.validate(p, L(s % "PROPERTIES"))
for e in glob.glob("/verif/evidence/*.json"): jsonschema.validate(L(e), L(s % "EVIDENCE"))
for p in ps:
    for f in p["anchors"]["files"]:
        if not os.path.exists("/repo/" + f): print(p["id"], "no file", f)
print(len(ps), "properties ok")
