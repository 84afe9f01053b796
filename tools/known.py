#!/usr/bin/env python3
"""Source of /verif/known_findings.json."""
import json,subprocess
fixed=[]
out=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout
PR={}
exec(open('/verif/tools/fixprops.py').read(),{'PR':PR})
F=PR.pop('FINDINGS')
for l in out.splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    if h not in PR: print('no property for',h,s); continue
    fixed.append(f"fixed: property={PR[h]} {h} {s[5:]}")
json.dump({"findings":F,"fixed":fixed},open('/verif/known_findings.json','w'),indent=1,ensure_ascii=False)
print(len(F),'findings',len(fixed),'fixed')
