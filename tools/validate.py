import json,jsonschema,os
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    p=json.loads(l)
    for e in jsonschema.Draft202012Validator(s).iter_errors(p): print(p["id"],e.message[:300])
    for f in p["anchors"]["files"]+[m["where"] for m in p["anchors"]["mechanism"]]:
        if not os.path.exists("/repo/"+f): print(p["id"],f)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
