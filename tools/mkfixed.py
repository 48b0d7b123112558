#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from the fix commits of /repo."""
import json, subprocess
MAP = json.load(open('/verif/tools/fixed_map.json'))
log = subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','c52370d..HEAD'],capture_output=True,text=True).stdout.splitlines()
out=[]
for l in log:
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    s=s[5:]
    p=MAP.get(s)
    assert p, 'no property for: '+s
    out.append(f'fixed: property={p} {h} {s}')
k=json.load(open('/verif/known_findings.json'))
k['fixed']=out
json.dump(k,open('/verif/known_findings.json','w'),indent=1)
open('/verif/known_findings.json','a').write('\n')
