#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for each property with a harness, the rest under not_applicable."""
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
have=set()
for f in os.listdir(V+'/harness/props'):
    for m in re.finditer(r'^func (C\d\d)_',open(V+'/harness/props/'+f).read(),re.M): have.add(m.group(1))
NOTES=json.load(open(V+'/tools/levels.json'))
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in have:
        checks.append({"property":i,"quick_cmd":"bash tools/check.sh %s quick"%i,"thorough_cmd":"bash tools/check.sh %s thorough"%i,
          "technique":"symbolic execution of the Go SSA of the real code, assertions decided by z3, counterexamples replayed natively",
          "level":"model_checking","level_note":NOTES.get(i,NOTES["default"])})
    else:
        na.append({"property":i,"reason":NOTES.get("na-"+i,"harness not built yet")})
m={"version":1,"setup_cmd":"bash tools/setup.sh","checks":checks,"not_applicable":na,
   "notes":"No hooks in /repo: the engine loads the packages from /repo's working tree on every run. Repairs are the 'fix:' commits, listed in known_findings.txt."}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
