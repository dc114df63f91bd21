#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, re
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l)["id"] for l in open(os.path.join(root,"properties.jsonl"))]
src=open(os.path.join(root,"check")).read()
MON="runtime monitoring: real entrypoint on an in-process SVM, every transaction judged online against reference semantics and state invariants"
TECH={p:MON for p in "P01 P02 P03 P04 P05 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18".split()}
NOTE={p:"random hostile histories (signers, aliases, roles, sizes, raw data); complete only over the situations listed in the evidence" for p in TECH}
exec(open(os.path.join(root,"tools","manifest_extra.py")).read()) if os.path.exists(os.path.join(root,"tools","manifest_extra.py")) else None
checks=[];na=[]
for p in props:
    if p in TECH:
        checks.append(dict(property=p,quick_cmd=f"./check {p} quick",thorough_cmd=f"./check {p} thorough",
            technique=TECH[p],level="exploration",level_note=NOTE[p]))
    else:
        na.append(dict(property=p,reason="check not built yet"))
json.dump(dict(version=1,setup_cmd="./check setup",checks=checks,not_applicable=na),open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"checks",len(na),"not applicable")
