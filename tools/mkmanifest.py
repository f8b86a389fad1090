#!/usr/bin/env python3
import json,os,sys
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.join(here,"..")
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
try: info=json.load(open(os.path.join(here,"checks.json")))
except FileNotFoundError: info={}
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in info:
        c=info[i]
        checks.append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}",
          "evidence_file":f"evidence/{i}.json","technique":c["technique"],"level":c["level"],"level_note":c["note"]})
    else: na.append({"property":i,"reason":"its check is not built yet"})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: everything is driven through the public API. See DESIGN.md."}
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"checks",len(na),"n/a")
