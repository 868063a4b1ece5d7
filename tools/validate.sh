#!/bin/bash
cd /verif && python3 tools/gen.py && python3-vt -c "
import json,jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'):
    try: jsonschema.validate(json.loads(l),s)
    except Exception as e: print(json.loads(l)['id'], str(e)[:300])
jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
"
