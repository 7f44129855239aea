import json,jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),s)
import os
if os.path.exists('/verif/MANIFEST.json'): jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
for f in os.listdir('/verif/evidence'): jsonschema.validate(json.load(open('/verif/evidence/'+f)),json.load(open('/root/.vp/EVIDENCE.schema.json')))
print('ok')
