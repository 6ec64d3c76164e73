#!/usr/bin/env python3
# prints the table of planted bugs for DESIGN.md from seeded/*/meta.json
import json,os
d=os.path.join(os.path.dirname(__file__),'..','seeded')
rows=[]
for i in sorted(os.listdir(d)):
    m=json.load(open(os.path.join(d,i,'meta.json')))
    rows.append((m['property'],i,m['what_it_breaks'],m['needs'],m.get('first','caught')))
rows.sort()
print('| property | change | what it breaks | what it needs | when first run |\n|---|---|---|---|---|')
for p,i,w,n,f in rows: print('| %s | %s | %s | %s | %s |'%(p,i,w.replace('|','/'),n.replace('|','/'),f))
