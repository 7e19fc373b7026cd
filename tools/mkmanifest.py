#!/usr/bin/env python3
# Regenerates MANIFEST.json. A property is claimed when it is listed in CLAIMED below.
import json
CLAIMED={ # id: (technique, note)
}
exec(open('/verif/tools/claimed.py').read())
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIMED:
        t,n=CLAIMED[i]
        checks.append(dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",evidence_file=f"evidence/{i}.json",technique=t,level="model_checking",level_note=n))
    else:
        na.append(dict(property=i,reason=NA.get(i,"the check for this property is still being built")))
json.dump(dict(version=1,setup_cmd="bash check.sh build",checks=checks,not_applicable=na),open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),"claimed",len(na),"not")
