#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties which have a check."""
import json, os, re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(here,'properties.jsonl'))]
src=''.join(open(os.path.join(here,'harness',f)).read() for f in os.listdir(os.path.join(here,'harness')) if f.endswith('.go'))
have=set(re.findall(r'Prop\{ID: "([A-Z]\d+)"',src))
notes=json.load(open(os.path.join(here,'tools','notes.json')))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have:
        t,n=notes.get(i,["runtime monitoring against an independent oracle","Held on the executions observed."])
        checks.append(dict(property=i,quick_cmd='./run.sh %s quick'%i,thorough_cmd='./run.sh %s thorough'%i,evidence_file='evidence/%s.json'%i,technique=t,level='fault_enumeration' if i in('D05','D06') else 'exploration',level_note=n))
    else:
        na.append(dict(property=i,reason='No check built for it yet.'))
m=dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na,notes='No hooks in /repo: the monitors observe the exported API and exported state of the real code.')
json.dump(m,open(os.path.join(here,'MANIFEST.json'),'w'),indent=1)
print(len(checks),'checks',len(na),'unclaimed')
