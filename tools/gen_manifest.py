#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist, and properties.jsonl"""
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T=json.load(open(V+'/tools/checks.json'))
ids=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
checks=[];na=[]
for i in ids:
    f=V+'/checks/%s.py'%i
    if os.path.exists(f) and i in T:
        lv=re.search(r"vf\.main\(main,'%s','(\w+)'\)"%i,open(f).read()).group(1)
        checks.append(dict(property=i,quick_cmd='VERIF_TIER=quick python3 checks/%s.py'%i,thorough_cmd='VERIF_TIER=thorough python3 checks/%s.py'%i,
                           technique=T[i]['technique'],level=lv,level_note=T[i]['note']))
    else: na.append(dict(property=i,reason=T.get(i,{}).get('na','no check has been built yet')))
json.dump(dict(version=1,setup_cmd='bash setup.sh',checks=checks,not_applicable=na,
    notes='All checks enumerate a stated finite space exhaustively on the real code built from /repo\'s working tree; see DESIGN.md. No hooks in /repo: instrumentation is added at compile time to copies built in /verif/.build.'),open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'not claimed')
