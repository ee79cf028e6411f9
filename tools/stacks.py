#!/usr/bin/env python3
"""stacks.py REPLAY: a short view of a replay file."""
import json,re,sys
from collections import Counter
r=json.load(open(sys.argv[1]))
print(r.get('scenario'),r.get('instance'),r.get('seed'),r['what'][:1500])
n=int(sys.argv[2]) if len(sys.argv)>2 else 25
print('\n'.join(x[:240] for x in (r.get('trace') or [])[-n:]))
c=Counter()
for x in '\n'.join((r.get('goroutines') or [])).split('\n\n'):
    fr=re.findall(r'^(\S+)\([^()]*\)$|^(\S+?)\(\(\*',x,re.M)
    fr=re.findall(r'^([^\s].*)\(.*\)$',x,re.M)
    fr=[f.split('/')[-1] for f in fr if not f.startswith(('internal/','sync.','runtime.','goroutine','created'))]
    if '[' in x: c[(x.split('[')[1].split(']')[0].split(',')[0],' < '.join(fr[:8]))]+=1
for k,v in c.most_common(n): print(v,*k)
