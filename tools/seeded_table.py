#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for d in sorted(os.listdir(here+'/seeded')):
    m=json.load(open(f'{here}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks'].strip()} |")
s=open(here+'/DESIGN.md').read()
h='| id | property | breaks |\n|----|----------|--------|\n'
i=s.index(h)
open(here+'/DESIGN.md','w').write(s[:i]+h+'\n'.join(rows)+'\n')
