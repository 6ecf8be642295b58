#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the drivers present in checks/."""
import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
NOTE={}
exec(open(root+'/tools/notes.py').read())
checks=[];na=[]
for p in props:
    i=p['id']
    if os.path.exists(f'{root}/checks/{i}.cpp'):
        checks.append(dict(property=i,quick_cmd=f'./run.sh {i} quick',thorough_cmd=f'./run.sh {i} thorough',
            evidence_file=f'evidence/{i}.json',
            technique='bounded exhaustive exploration of the real code (stateless explicit-choice model checker) against a reference model',
            level='model_checking',level_note=NOTE.get(i,'Complete within the bounds printed per scenario; says nothing beyond them. Trusts the reference model in checks/%s.cpp, ASan/UBSan and the harness.'%i)))
    else:
        na.append(dict(property=i,reason=NA.get(i,'check not built yet')))
m=dict(version=1,setup_cmd='mkdir -p evidence replays',checks=checks,not_applicable=na,
  notes='Every check compiles /repo/source from the working tree with sanitizers and a tracking allocator into a scratch folder under /tmp that it removes.')
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'not claimed')
