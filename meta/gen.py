#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from meta/properties.json (texts)
and contracts/props.py (which properties have contracts)"""
import json, sys, os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,H+'/contracts')
from props import PROPS
P=json.load(open(H+'/meta/properties.json'))
with open(H+'/properties.jsonl','w') as f:
    for p in P:
        q={k:v for k,v in p.items() if k not in('level_note','na')}
        f.write(json.dumps(q)+'\n')
checks=[]; na=[]
for p in P:
    i=p['id']
    if i in PROPS and not p.get('na'):
        c=PROPS[i]
        checks.append(dict(property=i,quick_cmd=f'python3-vt run.py {i} --tier quick',thorough_cmd=f'python3-vt run.py {i} --tier thorough',evidence_file=f'evidence/{i}.json',
            technique='contract-based deductive verification: contracts on the functions of /repo, verification conditions from their LLVM IR, discharged by z3/cvc5 (no bound on inputs or iterations)',
            level=c.get('level','proof'),level_note=p['level_note']))
    else: na.append(dict(property=i,reason=p['na']))
m=dict(version=1,setup_cmd='bash setup.sh',checks=checks,not_applicable=na,
  notes='Every check compiles the functions of /repo it needs from the current tree, generates the obligations and has them proved. See DESIGN.md.')
json.dump(m,open(H+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'not applicable')
