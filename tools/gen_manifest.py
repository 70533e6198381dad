#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claims below and properties.jsonl."""
import json, os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
ids=[json.loads(l)["id"] for l in open(os.path.join(V,"properties.jsonl"))]
C={}
def claim(id,tech,note): C[id]=(tech,note)
NA={
"X01":"needs the value of model lookups and merges on runtime strings (that the merged pieces spell the input); no sound static bound on vocabulary contents. The byte alphabet half is decided by B02, decoder plumbing by D01/V03.",
"X02":"offsets are runtime byte positions of runtime strings; no static argument in reach shows that alignments computed by text-dependent loops select the right characters. That text and alignment are always written together is decided by N01.",
}
exec(open(os.path.join(V,"tools","claims.py")).read())
checks=[]
for i in ids:
    if i in C:
        t,n=C[i]
        checks.append(dict(property=i,quick_cmd=f"./run.sh {i} quick",thorough_cmd=f"./run.sh {i} thorough",evidence_file=f"evidence/{i}.json",technique=t,level="other",level_note=n))
na=[dict(property=i,reason=NA.get(i,"check not built yet")) for i in ids if i not in C]
json.dump(dict(version=1,setup_cmd="./run.sh build",checks=checks,not_applicable=na,
 notes="One analyzer (analyzer/, Go, golang.org/x/tools SSA) decides every property from /repo's current source; no code of /repo is executed. No hooks in /repo."),open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"claimed",len(na),"not")
