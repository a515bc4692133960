#!/usr/bin/env python3
"""rewrites the table at the end of DESIGN.md from seeded/*/meta.json"""
import json,glob,os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
d=open(V+'/DESIGN.md').read(); m='<!-- planted -->\n'
d=d.split(m)[0]+m+'| change | caught by | needs |\n|---|---|---|\n'
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    j=json.load(open(f)); d+='| %s | %s%s | %s |\n'%(os.path.basename(os.path.dirname(f)),j['property'],' (after strengthening)' if j.get('strengthened') else '',j['needs'])
open(V+'/DESIGN.md','w').write(d)
