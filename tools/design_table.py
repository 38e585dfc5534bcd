#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/."""
import json,os,re
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
g={}
for d in sorted(os.listdir(V+"/seeded")):
    m=json.load(open(f"{V}/seeded/{d}/meta.json")); g.setdefault(m["property"],[]).append(d)
p=V+"/DESIGN.md"; s=open(p).read()
rows="".join(f"| {P} | {', '.join(ids)} | {P}, all |\n" for P,ids in sorted(g.items()))
s,n=re.subn(r"(?:\| C\d\d \| [^|\n]* \| C\d\d, all \|\n)+",lambda m:rows,s)
assert n==1,n
s=re.sub(r"\b\d+ (planted bugs|changes) (are )?kept",lambda m:m.group(0).replace(m.group(0).split()[0],str(sum(map(len,g.values()))),1),s)
open(p,"w").write(s)
print(n,sum(map(len,g.values())))
