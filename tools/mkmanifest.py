#!/usr/bin/env python3
"""writes MANIFEST.json: every property with contracts is claimed, the rest not_applicable"""
import json,os,sys
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0]=[H+'/vc',H+'/contracts']
import importlib,lib
for f in sorted(os.listdir(H+'/contracts')):
    if f.startswith('c_') and f.endswith('.py'): importlib.import_module(f[:-3])
NA=json.load(open(H+'/tools/not_applicable.json'))
NOTES=json.load(open(H+'/tools/level_notes.json'))
checks=[];na=[]
for l in open(H+'/properties.jsonl'):
    p=json.loads(l)['id']
    if p in lib.REG and p not in NA:
        checks.append(dict(property=p,quick_cmd='python3 check.py '+p,thorough_cmd='python3 check.py '+p,technique='contract-based deductive verification of the compiled C++ (LLVM IR) with a purpose-built VC generator; z3/cvc5 and exact algebraic identity back ends',level='other' if p in lib.BOUNDED_PROPS else 'proof',level_note=NOTES.get(p,NOTES['bounded' if p in lib.BOUNDED_PROPS else '*'])))
    else: na.append(dict(property=p,reason=NA.get(p,'no contract yet')))
json.dump(dict(version=1,setup_cmd='python3 -c "import numpy" && clang++ --version >/dev/null && z3 --version >/dev/null',checks=checks,not_applicable=na,notes='see DESIGN.md'),open(H+'/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',[n['property'] for n in na])
