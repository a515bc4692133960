import json,glob,sys,collections
for f in sorted(glob.glob('/verif/evidence/replay/%s-*.json'%sys.argv[1])):
    d=json.load(open(f)); sys.stdout.reconfigure(errors="replace");print(d['key'],str(d['what']).replace(chr(10),' ')[:int(sys.argv[2]) if len(sys.argv)>2 else 300])
