#!/usr/bin/env python3
'''Makes seeded/<id>/patch.diff + meta.json from a textual replacement.

  plant.py spec.json     spec: {id,property,file,old,new,needs,what_it_breaks}
                         or edits:[[file,old,new],...]

/repo is edited and restored. Refuses to touch lines that our own commits added'''
import sys,json,subprocess,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R=os.environ.get('VF_REPO','/repo')
def git(*a): return subprocess.run(['git','-C',R]+list(a),capture_output=True,text=True,check=True).stdout
root=git('rev-list','--max-parents=0','HEAD').split()[0]
s=json.load(open(sys.argv[1]))
assert not git('status','--porcelain').strip(), 'dirty'
d=f"{V}/seeded/{s['id']}"; os.makedirs(d,exist_ok=True)
try:
    for f,old,new in s.get('edits') or [[s['file'],s['old'],s['new']]]:
        p=f'{R}/{f}'; t=open(p).read()
        assert t.count(old)==1,(f,t.count(old),old)
        base=git('show',f'{root}:{f}')
        l0=t[:t.index(old)].count('\n'); n=old.count('\n')+1
        for l in t.split('\n')[l0:l0+n]:
            if l.strip() and l not in base.split('\n'): print('WARNING: not an original line:',l)
        open(p,'w').write(t.replace(old,new))
    open(d+'/patch.diff','w').write(git('diff'))
finally:
    git('checkout','--','.')
json.dump({k:s[k] for k in ('property','needs','what_it_breaks')},open(d+'/meta.json','w'),indent=1)
print(open(d+'/patch.diff').read())
