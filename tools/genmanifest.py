#!/usr/bin/env python3
# Regenerates MANIFEST.json from properties.jsonl, harness/registry and tools/na.json.
import json,os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(R+'/properties.jsonl')]
na=json.load(open(R+'/tools/na.json'))
checks=[];nas=[]
for p in props:
    i=p['id']; f=f'{R}/harness/registry/{i}.json'
    if os.path.exists(f) and i not in na:
        r=json.load(open(f))
        checks.append({"property":i,"quick_cmd":f"./check {i} quick","thorough_cmd":f"./check {i} thorough",
          "evidence_file":f"evidence/{i}.json",
          "technique":"bounded symbolic execution of the real code (go/ssa) with SMT (z3/cvc5), counterexamples replayed natively",
          "level":"model_checking",
          "level_note":"Holds for every value of the symbolic inputs and every choice within: "+r['bounds']+" Outside: "+r['outside']+(" Assumes: "+"; ".join(r['assumptions']) if r['assumptions'] else "")+" Trusts the SSA encoder in /verif/engine (cross-checked by replaying sampled path witnesses natively) and the solver."})
    else:
        nas.append({"property":i,"reason":na.get(i,"not built yet")})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":nas,
 "notes":"No hooks in /repo: harnesses are added through a build overlay. See DESIGN.md."}
json.dump(m,open(R+'/MANIFEST.json','w'),indent=1); open(R+'/MANIFEST.json','a').write('\n')
print(len(checks),'checks',len(nas),'n/a')
