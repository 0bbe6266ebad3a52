#!/usr/bin/env python3
# Regenerates MANIFEST.json from properties.jsonl and the table of checks below.
import json
claimed = {}
for l in open('/verif/checks.txt'):
    l=l.rstrip('\n')
    if not l or l[0]=='#': continue
    pid,level,tech,note=l.split('|',3)
    claimed[pid]=(level,tech,note)
checks=[];na=[]
for l in open('/verif/properties.jsonl'):
    p=json.loads(l)['id']
    if p in claimed:
        level,tech,note=claimed[p]
        checks.append(dict(property=p,quick_cmd=f"./run.sh {p}",thorough_cmd=f"./run.sh {p} --tier thorough",evidence_file=f"evidence/{p}.json",technique=tech,level=level,level_note=note))
    else:
        na.append(dict(property=p,reason="check not built yet"))
m=dict(version=1,setup_cmd="./run.sh build",checks=checks,not_applicable=na,notes="See DESIGN.md. All checks rebuild the harness against /repo's working tree.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
