#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every property that has a harness."""
import glob, json, os, re
V='/verif'
NA=json.load(open(V+'/tools/not_applicable.json'))
have={}
for f in glob.glob(V+'/harness/*/c*.go'):
    m=re.match(r'c(\d\d)_',os.path.basename(f))
    if m: have.setdefault('C'+m.group(1),[]).append(os.path.relpath(f,V))
checks=[]; na=[]
for l in open(V+'/properties.jsonl'):
    d=json.loads(l); i=d['id']
    if i in have and i not in NA:
        checks.append({"property":i,
          "quick_cmd":f"bash /verif/check.sh {i} quick","thorough_cmd":f"bash /verif/check.sh {i} thorough",
          "technique":"symbolic execution of the Go SSA of the real code with SMT solving (bounded); counterexamples replayed natively",
          "level":"model_checking",
          "level_note":"Bounded: every value of the symbolic inputs within the lengths, steps and histories of the harnesses ("+', '.join(sorted(have[i]))+"). Trusts the SSA interpreter and the idealised models of cryptographic primitives and standard library calls listed in DESIGN.md; paths the engine cannot encode are reported in the evidence as incomplete, not as verified."})
    else:
        na.append({"property":i,"reason":NA.get(i,"no check built yet")})
json.dump({"version":1,"setup_cmd":"bash /verif/setup.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: harnesses are compiled into the packages through go/packages and go test overlays."},open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'not applicable')
