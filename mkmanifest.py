#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl
import json
T={}
N={}
exec(open('techniques.py').read())
props=[json.loads(l) for l in open('properties.jsonl')]
checks=[]
for p in props:
    i=p['id']
    checks.append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}","technique":T[i],"level":"exploration","level_note":N[i]})
m={"version":1,"setup_cmd":"./check.sh build","checks":checks,"not_applicable":[]}
json.dump(m,open('MANIFEST.json','w'),indent=1)
