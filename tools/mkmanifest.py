#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: which properties are claimed (checks/<id>.py exists) and why the others are not."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
NA={}
exec(open(V+'/tools/na.py').read()) if os.path.exists(V+'/tools/na.py') else None
NOTE={}
TECH='contract-based deductive verification of the real code (vcgen: contracts over LLVM IR of /repo, inferred and checked loop invariants, normal-form and z3 back ends; counterexamples replayed natively)'
checks=[]
for i in ids:
    if os.path.exists(V+'/checks/%s.py'%i):
        checks.append(dict(property=i,quick_cmd='bin/check '+i,thorough_cmd='VERIF_TIER=thorough bin/check '+i,evidence_file='evidence/%s.json'%i,technique=TECH,level='proof',
          level_note='Every contract listed as proved in the evidence holds for all sizes, values and iterations over real arithmetic; contracts listed as bounded are checked for the stated extents only. Trusts clang -O1, the vcgen rules, z3 and the library contracts listed in the evidence; floating point is treated as real, integers as unbounded.'+NOTE.get(i,'')))
json.dump(dict(version=1,setup_cmd='true',checks=checks,not_applicable=[dict(property=i,reason=NA.get(i,'no contract within reach has been built for it')) for i in ids if not os.path.exists(V+'/checks/%s.py'%i)],
 notes='No hooks in /repo. Every check compiles /repo\'s working tree itself into a scratch directory it removes.'),open(V+'/MANIFEST.json','w'),indent=1)
