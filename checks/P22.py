#!/usr/bin/env python3
"""P22: concurrent and nested calls do not affect each other.

C: stateless exploration of the interleavings of every ordered pair of operations of the library (harness/sched.c,
harness/ops.c): the library is compiled with an instrumentation of each memory access and function entry, which are the
scheduling points; two threads run under a controlled scheduler. Oracle: each operation gives bit for bit what it gives
alone. Python: every operation before and inside every other one, to a depth."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf,subprocess,tempfile,shutil
import numpy as np
import harness
BUDGET={'quick':2e7,'thorough':1.2e9}[vf.TIER]; MAX2={'quick':20000,'thorough':200000}[vf.TIER]; NS=8 if vf.TIER=='quick' else 64

def slice_(b,k):
    d=tempfile.mkdtemp(prefix='P22-')
    try:
        r=subprocess.run([harness.sched(b),harness.ops(b),d,str(k),str(NS),'%g'%BUDGET,str(MAX2)],capture_output=True,text=True,timeout=850,env={**os.environ,**vf.ENV})
        if r.returncode!=0: return [('V',None,'the scheduler ended with %d: %s %s'%(r.returncode,r.stdout[-300:],r.stderr[-300:]))]
        return [tuple(l.split('\t')) for l in r.stdout.splitlines()]
    finally: shutil.rmtree(d,ignore_errors=True)

def pyops():
    import mrcal,probs
    O=[]
    def op(f): O.append((f.__name__ if f.__name__!='<lambda>' else '?',f))
    names=['LENSMODEL_OPENCV4','LENSMODEL_CAHVORE_linearity=0.37',probs.SPL3,probs.SPL2,'LENSMODEL_CAHVOR','LENSMODEL_LATLON']
    v=np.array(((.1,.2,1.),(-.3,.1,1.2),(.02,-.05,2.)))
    for m in names:
        for i in (0,1):
            intr=probs.intrinsics(m,i)
            O.append(('project %s %d'%(m,i),lambda m=m,intr=intr: mrcal.project(v,m,intr,get_gradients=True)))
            if 'CAHVORE' not in m: O.append(('unproject %s %d'%(m,i),lambda m=m,intr=intr: (mrcal.unproject(np.array(((500.,400.),(450.,380.))),m,intr),)))
        O.append(('metadata %s'%m,lambda m=m: (np.array(list(mrcal.lensmodel_metadata_and_config(m).values()),float),np.array(mrcal.lensmodel_num_params(m)))))
        if 'SPL' in m: O.append(('knots %s'%m,lambda m=m: mrcal.knots_for_splined_models(m)))
    def rot(s):
        rt0=np.array((.1,.2,-.3,1,2,3.))*s; rt1=np.array((-.5,.1,.2,.1,.2,.3))*s
        return mrcal.compose_rt(rt0,rt1,get_gradients=True)+mrcal.invert_rt(rt0,get_gradients=True)+mrcal.transform_point_rt(rt0,v,get_gradients=True)+mrcal.Rt_from_rt(rt0,get_gradients=True)+(mrcal.compose_rt(rt0,rt1,rt0),mrcal.compose_Rt(mrcal.Rt_from_rt(rt0),mrcal.Rt_from_rt(rt1)))
    O.append(('poses',lambda: rot(1.))); O.append(('poses, others',lambda: rot(-.7)))
    for s in (1.,.6):
        for tri in ('geometric','lindstrom','leecivera_l1','leecivera_linf','leecivera_mid2','leecivera_wmid2'):
            O.append(('triangulate %s %g'%(tri,s),lambda tri=tri,s=s: getattr(mrcal,'triangulate_'+tri)(np.array((.1*s,.2,1.)),np.array((-.12,.2*s+.01,1.)),*( [np.array(((1.,0,0),(0,1,0),(0,0,1),(1,0,0.)))] if tri=='lindstrom' else [np.array((1.,0,0))]),get_gradients=True)))
    def mdl(i): return mrcal.cameramodel(intrinsics=('LENSMODEL_OPENCV4',probs.intrinsics('LENSMODEL_OPENCV4',i)),imagersize=(1000,800),extrinsics_rt_fromref=np.array((.01*i,.02,0,-.5*i,0,.01)))
    O.append(('rectify',lambda: (lambda r: (r[0].intrinsics()[1],r[0].extrinsics_rt_fromref(),r[1].extrinsics_rt_fromref(),np.array(r[0].imagersize())))(mrcal.rectified_system((mdl(0),mdl(1)),az_fov_deg=30,el_fov_deg=20,pixels_per_deg_az=1.,pixels_per_deg_el=1.))))
    def srange(s): 
        m=[mrcal.cameramodel(intrinsics=('LENSMODEL_LATLON',np.array((100.*s,100,5,5))),imagersize=(10,10)) for i in (0,1)]; m[1].extrinsics_rt_toref(np.array((0,0,0,.3*s,0,0.)))
        return (mrcal.stereo_range((np.arange(100,dtype=np.uint16)*7+3).reshape(10,10),m,disparity_scale=16),)
    O.append(('range',lambda: srange(1.))); O.append(('range, other',lambda: srange(2.)))
    def parse(i):
        import io
        s=io.StringIO(); mdl(i).write(s); m=mrcal.cameramodel(io.StringIO(s.getvalue()))
        return m.intrinsics()[1],m.extrinsics_rt_fromref()
    O.append(('model file',lambda: parse(0))); O.append(('model file, other',lambda: parse(3)))
    sys.path.insert(0,os.path.join(vf.VERIF,'lib'))
    for w,mm in ((0,'LENSMODEL_OPENCV4'),(1,probs.SPL2)):
        p=small(mm,w)
        def call(p=p):
            b,x,J,f=mrcal.optimizer_callback(**p.kw()); bt=np.ones((2,len(b)))*.01*(1+np.arange(len(b)))
            return b,x,np.asarray(J.todense()),f.solve_xt_JtJ_bt(bt)
        O.append(('optimizer_callback %d'%w,call))
        def opt(p=p):
            k=p.kw(); s=mrcal.optimize(**k); return k['intrinsics'],k['rt_cam_ref'],k['rt_ref_frame'],s['b_packed'],s['x']
        O.append(('optimize %d'%w,opt))
    for w in (0,1):
        def trav(w=w):
            M=np.array([[0,5,0,3,0],[5,0,2,5,0],[0,2,0,0,5],[3,5,0,0,0],[0,0,5,0,0]],np.uint16)[::1-2*w,::1-2*w]; q=[]
            mrcal.traverse_sensor_links(connectivity_matrix=np.ascontiguousarray(M),callback_sensor_link=lambda a,b: q.append((a,b))); return (np.array(q),)
        O.append(('traverse %d'%w,trav))
    return O
def small(model,w):
    import probs
    return probs.Prob(model=model,sens=[(0,-1),(1,0)],Nf=2,boards=[(0,0),(0,1),(1,0),(1,1)],W=3,H=4,Np=3,Npf=1,pts=[(0,0),(0,1),(1,0),(2,1)],tri=[],warp=True,noise=.3,vary=w,
        sel=dict(core=0 if w else 1,dist=1,ext=1,frames=1,warp=1,reg=1,unity=0))
def same(a,b): return len(a)==len(b) and all(np.shape(x)==np.shape(y) and np.array_equal(x,y,equal_nan=True) for x,y in zip(a,b))
def go(it):
    if it[0]=='c': return slice_(it[1],it[2])
    import mrcal,copy
    O=pyops(); bad=[]; n=0; i=it[1]
    name,f=O[i]
    base=copy.deepcopy(f())                                 # the first call made in this process
    n+=1
    if not same(base,f()): bad.append('%s: repeated: different'%name)
    M=np.array([[0,9,0,3],[9,0,2,5],[0,2,0,7],[3,5,7,0]],np.uint16); want=[]
    mrcal.traverse_sensor_links(connectivity_matrix=M,callback_sensor_link=lambda a,b: want.append((a,b)))
    for j,(nj,g) in enumerate(O):
        n+=1; g()
        if not same(base,f()): bad.append('%s after %s: different'%(name,nj)); break
        # inside callbacks: f inside one traversal inside which g is called by another
        for at in range(len(want)):
            n+=1; q=[]; r=[]
            def inner(a,b):
                r.append(f())
            def cb(a,b):
                if len(q)==at: g(); mrcal.traverse_sensor_links(connectivity_matrix=M[:2,:2].copy(),callback_sensor_link=inner); g()
                q.append((a,b))
            if j%3!=i%3 and vf.TIER=='quick': break
            mrcal.traverse_sensor_links(connectivity_matrix=M,callback_sensor_link=cb)
            if q!=want: bad.append('traverse_sensor_links() calling %s and %s in its callback: links %s, expected %s'%(nj,name,q,want)); break
            if len(r)!=1 or not same(base,r[0]): bad.append('%s in a callback, after %s: different'%(name,nj)); break
        if bad: break
    return bad,n

def main(c,b):
    harness.sched(b); harness.ops(b)
    import mrcal
    k=len(pyops())
    items=[('c',b,i) for i in range(NS)]+[('py',i) for i in range(k)]
    ev=0; sched=pairs=pts=two=shared=0; lev=[0,0,0]; nops=0; acc={}
    for it,r in zip(items,vf.pmap(go,items,chunk=1)):
        if r[0]!='ok': c.violation('crash','%s: %s'%(it[0],r[1]),dict(item=it,what=str(r[1]))); continue
        if it[0]=='py':
            ev+=r[1][1]
            for w in r[1][0]: c.violation('python',w,dict(what=w))
            continue
        for l in r[1]:
            if l[0]=='V':
                if l[1] is None: c.violation('scheduler',l[2],dict(what=l[2])); continue
                w='%s | %s: %s (at point %s,%s): the %s one gave %s at [%s], alone it gives %s'%(l[1],l[2],l[3],l[4],l[5],('first','second')[int(l[6])],l[8],l[7],l[9])
                c.violation('interleaving',w,dict(what=w,first=l[1],second=l[2],points=l[4:6]))
            if l[0]=='O': acc[l[1]]=[int(x) for x in l[4:8]]
            if l[0]=='S':
                nops=int(l[1]); pairs+=int(l[2]); sched+=int(l[3]); pts+=int(l[4]); two+=int(l[5]); shared+=int(l[6]); lev=[a+int(x) for a,x in zip(lev,l[7:10])]
    c.sample(dict(operations=nops,python_operations=k,accesses_and_static_accesses=dict(list(acc.items())[:12])))
    c.sample(dict(pairs=pairs,schedules=sched,preemption_points=pts,both_preempted=two,pairs_sharing_static_data=shared,pairs_at_each_access=lev[0],pairs_at_function_entries=lev[1],pairs_at_static_accesses_only=lev[2]))
    return dict(evaluations=sched+ev,distinct_nontrivial=pts+two,exhaustive=True,
        rule='schedules of ordered pairs of operations; every preemption point of the first operation (each memory access, or each function entry where that exceeds %g access-executions; static data always), and both preempted at each pair of static accesses if they share written static data. Non-trivial: the second operation ran in the middle of the first'%BUDGET)
vf.main(main,'P22','exploration')
