#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run: python3 tools/manifest.py)."""
import json, re, subprocess, os
os.chdir('/verif')
props=[json.loads(l) for l in open('properties.jsonl')]
T={}
exec(open('tools/techniques.py').read(), {'T':T})
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in T:
        tech,note=T[i][:2]; level=T[i][2] if len(T[i])>2 else 'exploration'
        checks.append({"property":i,"quick_cmd":f"./run.sh {i} quick","thorough_cmd":f"./run.sh {i} thorough",
          "evidence_file":f"evidence/{i}.json","technique":tech,"level":level,"level_note":note})
    else:
        na.append({"property":i,"reason":"the monitor for this property is not built yet"})
m={"version":1,
 "setup_cmd":"./setup.sh",
 "checks":checks,"not_applicable":na,
 "notes":"Every check builds harness/ (a Go program linked against /repo's working tree through a replace directive) into a scratch directory, runs it under supervision and removes the scratch directory. No hooks are added to /repo: the monitors observe the public API, the readers and writers handed to it, and the written files."}
json.dump(m,open('MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'not claimed')
