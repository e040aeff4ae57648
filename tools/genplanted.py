#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md; usage: tools/seedcheck.sh | genplanted.py (lines: ID PROP RC MESSAGE)."""
import sys,json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for l in sys.stdin:
    p=l.rstrip('\n').split('\t')
    if len(p)<4: continue
    m=json.load(open(f'{here}/seeded/{p[0]}/meta.json'))
    rows.append(f"| {p[0]} | {p[1]} | {m['what_it_breaks']} | {'caught' if p[2]=='1' else 'MISSED'}: {p[3].strip().replace('|','/')[:110]} |")
f=here+'/DESIGN.md'; s=open(f).read()
i=s.index('## Planted bugs')
s=s[:i]+'''## Planted bugs

Each was written from the property and the code, confirmed in a scratch copy (builds, tests pass, demonstration fails
only with it) and then run against the check of its property. The specifications are in `tools/seeds`.

| bug | property | what it breaks | check |
|---|---|---|---|
'''+'\n'.join(sorted(rows))+'\n'
open(f,'w').write(s)
