#!/usr/bin/env python3
"""rewrite the table of planted bugs in DESIGN.md"""
import json,glob,os,re
rows=["<!-- seeds -->","Every one is confirmed (tests pass, demo fails only with it) and caught by the quick check of its property.","","| id | property | needs | what it breaks |","|---|---|---|---|"]
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json'))
    rows.append("| %s | %s | %s | %s |"%(os.path.basename(d),m['property'],m['needs'].replace('|','/'),m['what_it_breaks'].replace('|','/')))
rows.append("<!-- /seeds -->")
t=open('/verif/DESIGN.md').read()
b="\n".join(rows)
if '<!-- seeds -->' in t: t=re.sub(r'<!-- seeds -->.*?<!-- /seeds -->',lambda m:b,t,flags=re.S)
else: t=t.replace('SEEDTABLE',b)
open('/verif/DESIGN.md','w').write(t)
