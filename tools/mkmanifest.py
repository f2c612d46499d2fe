#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of implemented checks."""
import json,os,re
here=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l) for l in open(here+"/../properties.jsonl")]
ids=[p["id"] for p in props]
T=json.load(open(here+"/checks.json"))
na=T.pop("_not_applicable",{})
checks=[]
for i in ids:
    if i in T:
        t=T[i]
        checks.append(dict(property=i,quick_cmd="./run.sh %s"%i,thorough_cmd="./run.sh %s thorough"%i,
            evidence_file="evidence/%s.json"%i,technique=t["technique"],level=t.get("level","exploration"),level_note=t["note"]))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,
 not_applicable=[dict(property=i,reason=na.get(i,"check not built yet")) for i in ids if i not in T],
 notes="Every check builds the tools and the harness from /repo's working tree, runs the real tools (or, where stated, the real packages in process) on generated workloads inside a scratch directory under /tmp and judges what was observed. No hooks in /repo are needed.")
json.dump(m,open(here+"/../MANIFEST.json","w"),indent=1,ensure_ascii=False); print(len(checks),"checks")
