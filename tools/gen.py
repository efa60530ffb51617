#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/table.py."""
import json, os, sys
H=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(H); sys.path.insert(0,H)
from table import PROPS
with open(V+'/properties.jsonl','w') as f:
    for p in PROPS:
        assert len(p['title'])<=80, p['id']
        f.write(json.dumps(dict(id=p['id'],title=p['title'],statement=p['statement'],quantifier=dict(over=p.get('over',['inputs']),text=p['quant']),
            why_tests_cant=p['tests'],anchors=dict(files=p['files'],mechanism=[dict(name=a,where=b) for a,b in p['mech']])))+'\n')
checks=[];na=[]
for p in PROPS:
    if p.get('na'): na.append(dict(property=p['id'],reason=p['na'])); continue
    checks.append(dict(property=p['id'],quick_cmd='python3-vt check.py '+p['id'],thorough_cmd='python3-vt check.py '+p['id']+' --thorough',
        technique=p.get('technique','contract-based deductive verification of the LLVM IR of the current sources (gluv)'),level=p.get('level','proof'),level_note=p['note']))
json.dump(dict(version=1,setup_cmd='python3-vt check.py --setup',checks=checks,not_applicable=na),open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'not applicable')
