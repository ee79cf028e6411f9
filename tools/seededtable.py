#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md (section 6).
import json,os,re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for d in sorted(os.listdir(here+'/seeded')):
    m=json.load(open(f'{here}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks'].strip()} |")
p=here+'/DESIGN.md'; s=open(p).read()
head='| id | property | what it breaks |\n|---|---|---|\n'
i=s.index(head)+len(head); j=s.index('\n\n',i)
open(p,'w').write(s[:i]+'\n'.join(rows)+s[j:])
