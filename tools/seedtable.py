#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import json,glob,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for d in sorted(glob.glob(here+"/seeded/*/meta.json")):
    m=json.load(open(d)); id=os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s |"%(id,m["needs"],m.get("caught_by",m["property"])))
s=open(here+"/DESIGN.md").read()
i=s.index("| planted bug | needs |"); j=s.index("\n\n",i)
s=s[:i]+"| planted bug | needs | caught by |\n|---|---|---|\n"+"\n".join(rows)+s[j:]
open(here+"/DESIGN.md","w").write(s)
