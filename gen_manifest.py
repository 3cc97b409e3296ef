#!/usr/bin/env python3
# Writes MANIFEST.json from the list of claimed checks below.
import json
TECH={}
def t(i,tech,note): TECH[i]=(tech,note)
exec(open('claims.py').read())
props=[json.loads(l)["id"] for l in open('properties.jsonl')]
checks=[];na=[]
for p in props:
    if p in TECH:
        tech,note=TECH[p]
        checks.append({"property":p,"quick_cmd":"./run.sh "+p,"thorough_cmd":"VERIF_TIER=thorough ./run.sh "+p,"evidence_file":"evidence/%s.json"%p,
          "technique":tech,"level":"other","level_note":note})
    else:
        na.append({"property":p,"reason":NA.get(p,"check under construction")})
json.dump({"version":1,"setup_cmd":"./run.sh --build","checks":checks,"not_applicable":na,
 "notes":"All checks are static: they load /repo's current source, build SSA and decide by abstract interpretation or dataflow; the repository's code is never executed."},open('MANIFEST.json','w'),indent=1)
