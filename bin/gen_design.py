#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, texts.py, properties.jsonl, known_findings.txt and seeded/ (run by hand)."""
import os,json,sys
B=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(B); sys.path.insert(0,B)
import texts
o=open(B+"/design_head.md").read()
for l in open(V+"/properties.jsonl"):
    p=json.loads(l); t=texts.T[p["id"]]; ev=V+"/evidence/%s.json"%p["id"]; cost=""
    c=json.load(open(B+"/costs.json")).get(p["id"]) if os.path.exists(B+"/costs.json") else None
    if c: cost="Cost (quick): %s cases, about %d s on 8 cores.\n"%(format(c[0],","),c[1])
    o+="\n### %s %s\n\n%s\n\n*How:* %s.\n*Enumerated:* %s.\n*Oracle and method:* %s\n*Assumed:* %s.\n*Beyond the tests:* %s\n%s"%(p["id"],p["title"],p["statement"],t["technique"],t["rule"],t["note"],"; ".join(t["assumptions"]) or "nothing further",p["why_tests_cant"],cost)
o+="\n## Known findings and repairs\n\nNo unrepaired defect is listed as a known finding. Repaired with `fix:` commits (property, commit, what failed):\n\n"
for l in open(V+"/known_findings.txt"):
    if l.startswith("fixed: "): o+="* "+l[7:].replace("property=","")
o+=open(B+"/design_tail.md").read()
o+="\n## Planted changes\n\n| change | property | needs | caught by |\n|---|---|---|---|\n"
for s in sorted(os.listdir(V+"/seeded")):
    m=json.load(open(V+"/seeded/%s/meta.json"%s)); o+="| %s | %s | %s | %s |\n"%(s,m["property"],m["needs"].replace("|","/"),m.get("caught_by",m["property"]+" quick"))
o+="\nEach repair above also served as a planted change: reversing it must make its check report (`VERIF_REPO=<scratch copy> bin/check.py <id>`).\n"
open(V+"/DESIGN.md","w").write(o); print(len(o))
