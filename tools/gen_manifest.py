#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and props.py."""
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+"/tools")
from props import PROPS
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in PROPS:
        P=PROPS[i]
        checks.append(dict(property=i,quick_cmd="python3 tools/check.py "+i,thorough_cmd="python3 tools/check.py %s --tier thorough"%i,
            technique=P.get("technique","property-based testing: generated inputs against a reference model, with shrinking; libFuzzer in the thorough tier"),
            level="exploration",level_note=P.get("note","Random and exhaustive-small generation in several build configurations (sanitized and checked, release C++11, release C++20); held on every generated case, not proved.")))
    else: na.append(dict(property=i,reason="check under construction"))
json.dump(dict(version=1,setup_cmd="python3 tools/setup.py",checks=checks,not_applicable=na),open(V+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks;",len(na),"not yet")
