#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design.md, the families of mc/, the planted bugs, tools/design_end.md."""
import re,glob,json,os
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
fam={}
texts={f:open(f).read() for f in sorted(glob.glob(root+'/mc/*.go'))}
for t in texts.values():
    for m in re.finditer(r'register\(&Family\{(.*)\}\)',t):
        b=m.group(1)
        p=re.search(r'Prop: "(P\d\d)"',b); n=re.search(r'Name: "([^"]*)"',b)
        r=re.search(r'(?:Run|Custom): (?:func\(\w+ \*\w+\) \{ )?(\w+)',b)
        q=re.search(r'Quick: (\d+)',b); th=re.search(r'Thorough: (\d+)',b)
        if p and n and r: fam.setdefault(r.group(1),[]).append((p.group(1),n.group(1).rstrip('-'),q.group(1) if q else '',th.group(1) if th else '','ThoroughOnly: true' in b))
rows=[]
for t in texts.values():
    for m in re.finditer(r'((?:^//[^\n]*\n)*)func (\w+)\(\w+ \*(?:Ctx|Exploration)',t,re.M):
        for (p,n,q,th,only) in fam.get(m.group(2),[]):
            d=re.sub(r'\n?// ?',' ',m.group(1)).strip()
            d=re.sub(r'^'+m.group(2)+r'[: ]\s*','',d)
            rows.append((p,n,q,th,d+(' (thorough only)' if only else '')))
out=open(here+'/design.md').read()
out+='\n## Families\n\nDeviations: how many departures from the default environment an execution may have (quick/thorough).\n\n| property | family | deviations | |\n|----|----|----|----|\n'
for p,n,q,th,d in sorted(set(rows)):
    out+=f"| {p} | {n} | {q+'/'+th if q or th else ''} | {d.replace('|','/')} |\n"
out+=open(here+'/design_end.md').read()
ids=sorted(os.listdir(root+'/seeded'))
out+=f'\n## Planted bugs and what catches them\n\n{len(ids)} planted bugs, each confirmed to build, to pass the stable tests and to fail its\ndemonstration. Each is caught by the quick check of its property (`tools/seed/catch.sh` applies them one by one).\n\n| bug | caught by | needs |\n|----|----|----|\n'
missed=json.load(open(here+'/missed.json')) if os.path.exists(here+'/missed.json') else {}
for i in ids:
    m=json.load(open(f'{root}/seeded/{i}/meta.json'))
    out+=f"| {i} | {missed.get(i,m['property']+' quick')} | {m['needs'].replace('|','/')} |\n"
open(root+'/DESIGN.md','w').write(out)
