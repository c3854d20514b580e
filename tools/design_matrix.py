#!/usr/bin/env python3
"""prints the table of planted bugs for DESIGN.md from seeded/*/meta.json and tools/matrix.txt (if present)"""
import json,os,glob,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res={}
try:
    for l in open(V+'/tools/matrix.txt'):
        m=re.match(r'(\S+): (\S+) exit (\d+) +\S+ *(\S*)',l)
        if m: res[m[1]]='caught: `%s`'%m[4].rstrip(':') if m[3]=='1' else 'missed (exit %s)'%m[3]
except OSError: pass
print('| bug | property | needs | own check |\n|---|---|---|---|')
for d in sorted(glob.glob(V+'/seeded/*')):
    m=json.load(open(d+'/meta.json')); i=os.path.basename(d)
    print('| %s | %s | %s | %s |'%(i,m['property'],m['needs'].replace('|','/').replace('\n',' '),res.get(i,'not run')))
