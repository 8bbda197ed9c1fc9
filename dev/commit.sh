#!/bin/bash
# regenerate the metadata, validate it, commit
cd /verif && python3 dev/known.py && python3 dev/meta.py && python3-vt - <<'P' && git add -A && git commit -qm "$1" && echo committed
import json,jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),s)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
P
