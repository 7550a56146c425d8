import json, sys, glob, jsonschema, os
S='/root/.vp/'
ps=json.load(open(S+'PROPERTIES.schema.json'))
ids=[]
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,ps); ids.append(d['id'])
    n=len([x for x in d['statement'].replace('...','').split('. ') if x.strip()])
    if n>3: print(d['id'],'sentences',n)
assert len(set(ids))==len(ids)
if os.path.exists('/verif/MANIFEST.json'):
    m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,json.load(open(S+'MANIFEST.schema.json')))
    c=[x['property'] for x in m['checks']]; na=[x['property'] for x in m.get('not_applicable',[])]
    assert sorted(c+na)==sorted(ids), (set(ids)^set(c+na))
es=json.load(open(S+'EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'):
    jsonschema.validate(json.load(open(f)),es)
print('ok',len(ids))
