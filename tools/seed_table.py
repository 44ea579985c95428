#!/usr/bin/env python3
"""Development aid: rewrites section 7 of DESIGN.md from seeded/*/meta.json (no check reads seeded/)."""
import json,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=open(V+"/DESIGN.md").read(); i=s.index("## 7. Planted bugs")
rows=[]
for d in sorted(glob.glob(V+"/seeded/*/")):
    m=json.load(open(d+"meta.json")); rows.append((m["property"],os.path.basename(d[:-1]),m["what_it_breaks"].split("\n")[0],m["needs"].split("\n")[0],m.get("missed")))
rows.sort()
t="## 7. Planted bugs (`seeded/`)\n\nEach compiles, passes the 1043 stable tests, and needs something specific to show. Confirmed with\n`tools/plant.py` in a scratch copy. \"caught\" is the result of the quick check of that property, seed 1.\n\n| property | bug | what it breaks | needs | caught |\n|---|---|---|---|---|\n"
for p,n,b,e,miss in rows: t+="| %s | %s | %s | %s | %s |\n"%(p,n,b.replace("|","\\|"),e.replace("|","\\|"),"no" if miss else "yes")
t+="\nFirst missed, then caught after the check was strengthened: uncatsep-sep-of-last (P10: composition with\na separator of any type added);\ncatsep-needed-after-full (P08: argument lists were at most four long, now twelve);\nblob-assign-array-len (P29: arrays of any size added). Dropped as not breaking any statement: a left alignment writing one\ncharacter past the field inside the caller's buffer (unspecified content).\n"
open(V+"/DESIGN.md","w").write(s[:i]+t)
