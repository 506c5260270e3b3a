#!/usr/bin/env python3
"""Writes MANIFEST.json: every property of properties.jsonl with a driver props/<id>.cpp is claimed."""
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T=json.load(open(here+"/tools/techniques.json"))
NA=json.load(open(here+"/tools/not_applicable.json"))
checks=[];na=[]
for l in open(here+"/properties.jsonl"):
    i=json.loads(l)["id"]
    if os.path.exists(f"{here}/props/{i}.cpp") and i not in NA:
        t=T.get(i,["property-based testing against a reference model","Generated-input search: sampling, not proof. Trusts the reference model in the driver, the compiler and the sanitizers."])
        checks.append(dict(property=i,quick_cmd=f"./run.sh {i} quick",thorough_cmd=f"./run.sh {i} thorough",evidence_file=f"evidence/{i}.json",technique=t[0],level="exploration",level_note=t[1]))
    else: na.append(dict(property=i,reason=NA.get(i,"No check has been built yet.")))
json.dump(dict(version=1,setup_cmd="mkdir -p build evidence replays && clang++-18 --version >/dev/null",checks=checks,not_applicable=na),open(here+"/MANIFEST.json","w"),indent=1,ensure_ascii=False)
print(len(checks),"checks",len(na),"not claimed")
