#!/usr/bin/env python3
import json,os,sys
H=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(H); sys.path.insert(0,H)
import checks_conf
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
checks=[];na=[]
for p in props:
    i=p["id"]; c=checks_conf.CHECKS.get(i)
    if c:
        checks.append(dict(property=i,quick_cmd="python3 bin/check.py %s quick"%i,thorough_cmd="python3 bin/check.py %s thorough"%i,
          technique=c.get("technique","bounded-exhaustive enumeration of inputs/operation sequences executed on the real code against a reference model"),
          level=c.get("level","model_checking"),level_note=c.get("note","Exhaustive within the stated bounds on the real code compiled from the working tree; trusts the reference model, the compiler and the alphabet.")))
    else: na.append(dict(property=i,reason=checks_conf.NA.get(i,"check not built yet")))
m=dict(version=1,setup_cmd="python3 bin/setup.py",checks=checks,not_applicable=na)
if getattr(checks_conf,"HOOKS",None): m["hooks"]=checks_conf.HOOKS
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"not claimed")
