#!/usr/bin/env python3
"""rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json"""
import json,os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c=json.load(open(R+'/tools/caught.json'))
o=['| id | needs | caught by |','|---|---|---|']
for b in sorted(os.listdir(R+'/seeded')):
    m=json.load(open(f'{R}/seeded/{b}/meta.json'))
    o.append(f"| {b} | {m['needs']} | {c.get(b,'not yet run')} |")
s=open(R+'/DESIGN.md').read()
a,z='<!-- planted -->\n','<!-- /planted -->\n'
if '@@SEEDED@@\n' in s: s=s.replace('@@SEEDED@@\n',a+z)
i=s.index(a)+len(a); j=s.index(z)
open(R+'/DESIGN.md','w').write(s[:i]+'\n'.join(o)+'\n'+s[j:])
