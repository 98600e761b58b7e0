#!/usr/bin/env python3
"""Rewrites the table of seeded bugs at the end of DESIGN.md."""
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=open(here+'/DESIGN.md').read(); i=s.index('## Seeded bugs')
o=["## Seeded bugs","","Each is caught by its property's check (`caught by`: all checks that report it).","","| id | property | needs | caught by |","|---|---|---|---|"]
for d in sorted(os.listdir(here+'/seeded')):
    m=json.load(open(here+'/seeded/%s/meta.json'%d))
    o.append("| %s | %s | %s | %s |"%(d,m['property'],m['needs'].replace('|','/'),m.get('caught_by',m['property'])))
open(here+'/DESIGN.md','w').write(s[:i]+'\n'.join(o)+'\n')
