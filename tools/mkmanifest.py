#!/usr/bin/env python3
# Generates /verif/MANIFEST.json.
import json, os, sys
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
TECH='contract-based deductive verification (gv: contracts on the Go functions, verification conditions from go/ssa, z3/cvc5)'
BASE=' Integers are mathematical with bounded lengths; library contracts and frame assumptions are listed in the evidence. A bounded executable oracle runs alongside to turn a failed obligation into a failing input; it is not counted as proved.'
exec(open(os.path.join(V,'tools','claims.py')).read())
checks=[]
for pid,(level,note) in sorted(CLAIMS.items()):
    checks.append(dict(property=pid,quick_cmd=f'./check.py {pid}',thorough_cmd=f'VERIF_TIER=thorough ./check.py {pid}',evidence_file=f'evidence/{pid}.json',
        technique=TECH,level=level,level_note=note+BASE))
ids=[json.loads(l)['id'] for l in open(os.path.join(V,'properties.jsonl'))]
na=[dict(property=i,reason=NA.get(i,'not claimed yet: its contracts are still being written')) for i in ids if i not in CLAIMS]
json.dump(dict(version=1,setup_cmd='tools/build.sh',hooks=dict(guard='verif',enable='none are needed: the verifier reads the sources of /repo as they are and the oracles are added by go test -overlay',source_commits=[]),checks=checks,not_applicable=na,
  notes='properties.jsonl, MANIFEST.json are generated by tools/mkprops.py and tools/mkmanifest.py. known-findings.txt lists the defects repaired in /repo.'),open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
print(len(checks),'claimed',len(na),'not')
