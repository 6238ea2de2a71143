import json,jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),s)
s=json.load(open('/root/.vp/MANIFEST.schema.json'))
import os
if os.path.exists('/verif/MANIFEST.json'): jsonschema.validate(json.load(open('/verif/MANIFEST.json')),s)
print('ok')
