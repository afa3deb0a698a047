#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (notes in `after` kept)."""
import json,os,re
D=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=open(D+'/DESIGN.md').read()
i=s.index('| bug | needs | caught by |'); 
j=i
while s[j:j+1]=='|': j=s.index('\n',j)+1
after=dict(re.findall(r'^\| (C\d\d-[\w-]+) \|.*\((after [^|]*)\) \|$',s[i:j],re.M))
after.update(json.load(open(D+'/tools/after.json')) if os.path.exists(D+'/tools/after.json') else {})
t='| bug | needs | caught by |\n|---|---|---|\n'
for d in sorted(os.listdir(D+'/seeded')):
    m=json.load(open(f'{D}/seeded/{d}/meta.json'))
    t+='| %s | %s | `check.sh %s`%s |\n'%(d,m['needs'].replace('|','\\|'),m['property'],' (%s)'%after[d] if d in after else '')
open(D+'/DESIGN.md','w').write(s[:i]+t+s[j:])
