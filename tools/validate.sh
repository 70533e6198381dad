#!/bin/bash
/opt/veriftools/pyvenv/bin/python - <<'P'
import json,jsonschema,glob
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),s)
m=json.load(open('/root/.vp/MANIFEST.schema.json'))
try: jsonschema.validate(json.load(open('/verif/MANIFEST.json')),m)
except FileNotFoundError: print("no manifest")
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)),e)
print("ok")
P
