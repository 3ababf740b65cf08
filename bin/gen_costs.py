#!/usr/bin/env python3
"""Records case counts and wall time of the last clean quick runs in costs.json (run by hand, after running the checks)."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); f=V+"/bin/costs.json"
d=json.load(open(f)) if os.path.exists(f) else {}
for p in sorted(os.listdir(V+"/evidence")):
    e=json.load(open(V+"/evidence/"+p))
    if e["tier"]=="quick" and not e["violations"]: d[e["property"]]=[e["coverage"]["evaluations"],round(e["wall_s"])]
json.dump(d,open(f,"w"),indent=0)
