import json, jsonschema, os
ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    d = json.loads(l)
    jsonschema.validate(d, ps)
    assert len(d['title']) <= 80
    for f in d['anchors']['files']:
        assert os.path.exists('/repo/' + f), f
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
