#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob,json,os
V=os.path.dirname(os.path.abspath(__file__))+'/../..'
p=V+'/DESIGN.md'; s=open(p).read(); head,rest=s.split('<!-- table -->\n',1)
i=0; L=rest.split('\n')
while i<len(L) and L[i].startswith('|'): i+=1
rows=['| planted bug | caught by | needs |','|---|---|---|']
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(f)); rows.append(f"| {f.split('/')[-2]} | {m['property']} | {m['needs']} |")
open(p,'w').write(head+'<!-- table -->\n'+'\n'.join(rows+L[i:]))
