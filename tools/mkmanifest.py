#!/usr/bin/env python3
import json, os, sys
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.join(here,"..")
sys.path.insert(0,here)
import mkprops
from claims import CLAIMS, NA
checks=[]; na=[]
for x in mkprops.L:
    i=x["id"]
    if i in CLAIMS:
        t,lv,note=CLAIMS[i]
        checks.append(dict(property=i,quick_cmd=f"./check {i}",thorough_cmd=f"./check {i} --thorough",technique=t,level=lv,level_note=note))
    else:
        na.append(dict(property=i,reason=NA.get(i,"Check under construction.")))
m=dict(version=1,setup_cmd="true",checks=checks,not_applicable=na)
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
try:
    import jsonschema
    jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError: pass
print(len(checks),"claimed",len(na),"n/a")
