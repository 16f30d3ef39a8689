#!/usr/bin/env python3
# rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json
import json,os,re
v=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for d in sorted(os.listdir(v+'/seeded')):
    m=json.load(open(f'{v}/seeded/{d}/meta.json'))
    also=m.get('also','')
    rows.append(f"| {d} | {m['property']}{' ('+also+')' if also else ''} | {m['what_it_breaks'].replace('|','/')} | {m['needs'].replace('|','/')} |")
t='''## Planted bugs

Each is caught by the quick check of its property (column 2), verified with
`tools/tryseed.sh`; each has a demonstration that fails with the bug only.

| bug | property, caught by | breaks | needs |
|-----|--------------------|--------|-------|
'''+'\n'.join(rows)+'\n'
s=open(v+'/DESIGN.md').read()
i=s.find('## Planted bugs')
s=(s if i<0 else s[:i].rstrip()+'\n\n')
if i<0: s=s.rstrip()+'\n\n'
open(v+'/DESIGN.md','w').write(s+t)
