#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: claims every property that has a harness in harness/props."""
import json,glob,re,os
os.chdir(os.path.join(os.path.dirname(__file__),'..'))
props=[json.loads(l) for l in open('properties.jsonl')]
have=set(re.findall(r'Registry\["(C\d\d)"\]',''.join(open(f).read() for f in glob.glob('harness/props/*.go'))))
NA={}
checks=[]
for p in props:
    i=p['id']
    if i not in have: continue
    checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",
      technique="bounded symbolic execution of go/ssa (regenerated from /repo on every run) with SMT solvers z3/cvc5; native replay of counterexamples",
      level="model_checking",
      level_note="Bounded: holds for all values of the symbolic inputs (and all interleavings, where goroutines are involved) within the shapes and operation counts listed per job in the evidence file; nothing is claimed outside them. Trusts go/ssa, the engine's instruction/scheduler semantics and library models (validated by native replays on every run) and the SMT solvers."))
na=[dict(property=p['id'],reason=NA.get(p['id'],"no check registered yet (work in progress)")) for p in props if p['id'] not in have]
json.dump(dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,
  notes="No hooks in /repo: the harnesses use the public API only. Fixes of genuine defects are listed in known_findings.txt."),open('MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not')
