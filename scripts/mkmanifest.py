#!/usr/bin/env python3
# Writes MANIFEST.json from the table below.
import json, os, subprocess
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
exec(open(os.path.join(V,'scripts','claims.py')).read())
m=dict(version=1,setup_cmd='bash scripts/setup',
 checks=[dict(property=i,quick_cmd='scripts/check %s quick'%i,thorough_cmd='scripts/check %s thorough'%i,technique=t,level=l,level_note=n) for i,(t,l,n) in CLAIMS.items()],
 not_applicable=[dict(property=i,reason=r) for i,r in NA.items()],
 notes='All checks: scripts/check ID TIER; engine in /verif/engine (own symbolic executor over go/ssa and amd64 machine code, z3/cvc5 back ends); see DESIGN.md')
ids=[json.loads(x)['id'] for x in open(os.path.join(V,'properties.jsonl'))]
assert set(ids)==set(CLAIMS)|set(NA), set(ids)^(set(CLAIMS)|set(NA))
json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
