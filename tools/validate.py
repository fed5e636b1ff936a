#!/usr/bin/env python3-vt
"""Validates properties.jsonl, MANIFEST.json and evidence/*.json against the schemas."""
import json, jsonschema, glob
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=set()
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); jsonschema.validate(p,s); ids.add(p['id'])
    n=p['statement'].count('. ')+1
    if n>3: print(p['id'],'has',n,'sentences')
m=json.load(open('/verif/MANIFEST.json'))
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
c={x['property'] for x in m['checks']}|{x['property'] for x in m['not_applicable']}
print('unclaimed:',ids-c,'unknown:',c-ids)
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)),e)
