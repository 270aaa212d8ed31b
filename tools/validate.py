import json,jsonschema,os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
jsonschema.validate(json.load(open(R+'/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(R+'/properties.jsonl'): jsonschema.validate(json.loads(l),s)
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in sorted(os.listdir(R+'/evidence')):
    jsonschema.validate(json.load(open(R+'/evidence/'+f)),e)
print("valid")
