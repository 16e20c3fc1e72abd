#!/bin/bash
# regenerate properties.jsonl and MANIFEST.json and validate them against the schemas
cd "$(dirname "$0")/.." && python3 tools/registry.py && python3-vt - <<'P'
import json, jsonschema, re
jsonschema.validate(json.load(open('MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'):
    d = json.loads(l); jsonschema.validate(d, s)
    n = len(re.findall(r"\.(?: |$)", d["statement"]))
    if n > 3: print("more than three sentences:", d["id"], n)
P
