#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the properties, notes and rules of the checks, and design_tail.md."""
import json,os,re
here=os.path.dirname(os.path.abspath(__file__)); top=os.path.dirname(here)
N=json.load(open(here+'/notes.json'))
D=json.load(open(here+'/design_props.json'))
src=''.join(open(top+'/harness/'+f).read() for f in sorted(os.listdir(top+'/harness')) if f.endswith('.go'))
out=[open(here+'/design_head.md').read()]
for l in open(top+'/properties.jsonl'):
    p=json.loads(l); i=p['id']
    m=re.search(r'Prop\{ID: "%s", Quick: (\d+), Thorough: (\d+)(.*?)Run:? '%i,src,re.S) or re.search(r'Prop\{ID: "%s", Quick: (\d+), Thorough: (\d+)(.*?)\}\)'%i,src,re.S)
    rest=src[m.start():m.start()+6000]
    rule=re.search(r'Rule:\s+"(.*?)",?\n',rest).group(1)
    out.append('### %s %s\n\n*Technique*: %s.\n\n*Workload* (quick %s cases, thorough %s): %s\n\n*Bounds*: %s\n\n*Why it reaches further than the tests*: %s\n%s'%(i,p['title'],N[i][0],m.group(1),m.group(2),rule.rstrip('.')+'.',N[i][1],p['why_tests_cant'],('\n*Notes*: '+D[i]+'\n') if D.get(i) else ''))
out.append(open(here+'/design_tail.md').read())
open(top+'/DESIGN.md','w').write('\n'.join(out))
