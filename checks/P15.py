#!/usr/bin/env python3
"""P15: faults.

Enumerated: every operation (reading and writing models from each entry point, reading and writing images of each
kind and format, the module's solver, cost function, factorization, packing and other calls), every fault kind
(open, read, write, seek, close, map, status, allocation), every point n of the run at which that fault can happen,
once or from there on. Each on the real code in a process of its own, which has to: not crash, report failure or
have everything right, leave no file open or mapped, and then do the same operation again without a fault."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf,json,subprocess,tempfile,re
H=os.path.join(vf.VERIF,'harness')
# libraries whose own allocations are not failed: the interpreter, stb (doesn't check any allocation), and for the
# whole solve the solver libraries (libdogleg exits on failure)
SKIP=['python3','libstb']; SKIPSOLVE=SKIP+['libdogleg','libcholmod','libsuitesparseconfig','libblas','liblapack','libopenblas']
def run(item):
    kind,arg,maxn=item
    if kind=='c':
        exe,i,n=arg
        with tempfile.TemporaryDirectory() as d:
            p=subprocess.run([exe,d,str(i),str(n)],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL)
        out=p.stdout.decode('latin1').splitlines()
        bad=[l for l in out if l.startswith('BAD')]
        if p.returncode not in (0,1) or not any(l.startswith('TOTAL') for l in out): bad.append('BAD harness failed: exit %d %s'%(p.returncode,out[-1:]))
        return [(re.sub(r'\d+','N',l)[:60],l) for l in bad],sum(int(l.split()[1]) for l in out if l.startswith('TOTAL')),{}
    pre,op=arg
    e=dict(os.environ,LD_PRELOAD=pre)
    p=subprocess.run(['/usr/bin/python3',os.path.join(H,'faults_py.py'),json.dumps(SKIPSOLVE if op.startswith('optimize ') else SKIP),json.dumps([op]),str(maxn)],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,env=e)
    ls=p.stdout.decode().splitlines()
    if not ls: return [('harness','%s: exit %d'%(op,p.returncode))],0,{}
    nm,b,n,s=json.loads(ls[-1])
    return [(nm+': '+x[3][:60],str(x)) for x in b],n,s
def main(c,b):
    import harness
    th=vf.TIER=='thorough'
    exe=harness.faults(b); pre=harness.preload(b)
    e=dict(os.environ,LD_PRELOAD=pre)
    p=subprocess.run(['/usr/bin/python3',os.path.join(H,'faults_py.py'),json.dumps(SKIP),'list'],stdout=subprocess.PIPE,env=e)
    ops=json.loads(p.stdout.splitlines()[-1])
    N=48
    items=[('py',(pre,o),100000 if th else 150) for o in sorted(ops,key=lambda o: not o.startswith('optimiz'))]+[('c',(exe,i,N),0) for i in range(N)]
    tot=0; per={}
    for it,r in zip(items,vf.pmap(run,items,chunk=1)):
        if r[0]!='ok': c.violation('harness',str(r[1])[-300:],dict(item=str(it))); continue
        bad,n,s=r[1]; tot+=n
        if it[0]=='py': per[it[1][1]]=dict(points=n,outcomes=s)
        else: per['C library']=per.get('C library',0)+n

        for k,w in bad: c.violation(k,w,dict(item=str(it),what=w))
    c.sample(per)
    return dict(evaluations=tot,distinct_nontrivial=tot,operations=len(ops),exhaustive=th,
        rule='evaluation: one operation with one fault (kind, n, once or from there on) that did happen')
if __name__=='__main__': vf.main(main,'P15','fault_enumeration')
