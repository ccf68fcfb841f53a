#!/usr/bin/env python3
# writes the table of planted changes into DESIGN.md (between the markers) from seeded/*/meta.json
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{d}/meta.json')); rows.append((m['property'],d,m['needs']))
rows.sort()
t='| Check | Change | Needs |\n|-------|--------|-------|\n'+''.join(f'| {p} | {d} | {n} |\n' for p,d,n in rows)
D=V+'/DESIGN.md'; s=open(D).read()
s=re.sub(r'<!-- seeds -->.*?<!-- /seeds -->',lambda _:'<!-- seeds -->\n'+t+'<!-- /seeds -->',s,flags=re.S)
open(D,'w').write(s)
