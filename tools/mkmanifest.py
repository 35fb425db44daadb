#!/usr/bin/env python3
# Source of MANIFEST.json: python3 tools/mkmanifest.py
import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(here,"properties.jsonl"))]
src=open(os.path.join(here,"mc/src/props/mod.rs")).read()
NOTES=json.load(open(os.path.join(here,"tools/levels.json")))
checks=[]; na=[]
for p in props:
    i=p["id"]
    if f'"{i}" =>' in src:
        t,n=NOTES[i]
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i}",thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
          evidence_file=f"evidence/{i}.json",technique=t,level="model_checking",level_note=n))
    else:
        na.append(dict(property=i,reason="not built yet"))
m=dict(version=1,setup_cmd="./check.sh build",checks=checks,not_applicable=na,
  notes="Black-box: the unmodified tool is built from /repo's working tree and run on enumerated synthetic builds; no hooks in /repo. Replay a violation with: ./check.sh replay <file>")
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"checks",len(na),"not claimed")
