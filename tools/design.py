#!/usr/bin/env python3
"""Fills in the table of planted bugs in DESIGN.md. The results of the checks are read from tools/caught (id check seconds)"""
import json,os,re
V='/verif'
caught={}
if os.path.exists(V+'/tools/caught'):
    for l in open(V+'/tools/caught'):
        f=l.split()
        if f: caught[f[0]]=f[1]
rows=['| planted bug | property | needs | caught by |','|---|---|---|---|']
for b in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{b}/meta.json'))
    rows.append(f"| {b} | {m['property']} | {m['needs'].strip()} | {caught.get(b,'?')} |")
s=open(V+'/DESIGN.md').read()
s=re.sub(r'<!-- planted -->.*<!-- /planted -->',lambda m:'<!-- planted -->\n'+'\n'.join(rows)+'\n<!-- /planted -->',s,flags=re.S)
open(V+'/DESIGN.md','w').write(s)
