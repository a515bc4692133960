#!/usr/bin/env python3
"""reg.py PNN technique note: register a check, regenerate"""
import json,sys,subprocess
p='/verif/tools/checks.json'; d=json.load(open(p)); d[sys.argv[1]]=dict(technique=sys.argv[2],note=sys.argv[3]); json.dump(d,open(p,'w'),indent=0)
subprocess.check_call(['python3','/verif/tools/gen_properties.py']); subprocess.check_call(['python3','/verif/tools/gen_manifest.py'])
