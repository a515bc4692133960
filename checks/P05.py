#!/usr/bin/env python3
"""P05: what a solve changes, and what it reports.

Enumerated: problem shapes x lens models x all selections x outlier rejection (off/on/default) x
verbosity: each is one history (evaluate, solve, evaluate, solve again) of the real optimizer.
Separate enumerations: every noise-free problem (fixed point), and every position (and pair of
positions) of a planted gross outlier."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf,itertools,copy
import numpy as np

def norm2(x): return float((x*x).sum())
def snap(kw): return {k:(v.copy() if isinstance(v,np.ndarray) else v) for k,v in kw.items()}
OBS=('observations_board','observations_point','observations_point_triangulated')
def changes(L,a,b,reject):
    """what differs between the arguments before (a) and after (b) that may not differ"""
    import P02
    bad=[]
    if set(a)!=set(b): bad.append(('keys',sorted(set(a)^set(b))))
    for k in a:
        if not isinstance(a[k],np.ndarray):
            if a[k]!=b[k]: bad.append((k,a[k],b[k]))
            continue
        if a[k].dtype!=b[k].dtype or a[k].shape!=b[k].shape: bad.append((k,'type or shape')); continue
        d=a[k]!=b[k]
        if k=='observations_board' and reject:
            d=d.copy(); w0,w1=a[k][...,2],b[k][...,2]
            d[...,2]=(w0!=w1)&~((w0>0)&(w1==-w0))
        ok=~P02.fixed(L,k,a[k].shape)
        if (d&~ok).any(): bad.append((k,'changed at',np.argwhere(d&~ok)[:3].tolist()))
    return bad
def start(P,amp):
    """moves the start away from where the observations came from, in what is optimized only"""
    L=P.L
    if not L.Nstate: return
    import probs
    P.intr,P.ext,P.frames,P.points,P.warp=L.unpack(P.state()+L.scale()*probs.seq((L.Nstate,),77,amp),*P.values())

def solve_case(item):
    import mrcal,cost,probs
    model,name,args,which,amp=item
    bad=[]; n=0; nsolve=0; stay=0
    tri='tri' in args
    for k,s in enumerate(cost.selections(args.get('tri'),None,args.get('warp'))):
        if which>1 and k%which: continue
        P=probs.Prob(model,sel=s,**args); L=P.L
        if not L.Nstate: continue
        start(P,amp)
        for mode in ('off','on','default','verbose'):
            if mode in('default','verbose') and k%4 and not (mode=='verbose' and which==1): continue
            kw=P.kw()
            kw['do_apply_outlier_rejection']=mode in('on','verbose')
            if mode=='default': del kw['do_apply_outlier_rejection']
            if mode=='verbose': kw['verbose']=True
            if k%5==2: kw['extrinsics_rt_fromref']=kw.pop('rt_cam_ref'); kw['frames_rt_toref']=kw.pop('rt_ref_frame')
            reject=mode!='off'
            x0=mrcal.optimizer_callback(no_jacobian=True,no_factorization=True,**kw)[1]
            before=snap(kw)
            def fail(*a,key='solve'): bad.append((key,dict(sel=s,mode=mode),)+a)
            try: st=mrcal.optimize(**kw); failed=False
            except RuntimeError as e: failed=True
            n+=1
            ch=changes(L,before,kw,reject)
            if ch: fail('changed what was not to be optimized' if not failed else 'a failed solve changed its arguments',ch)
            if failed: continue
            nsolve+=1
            b,x,J,_=mrcal.optimizer_callback(no_factorization=True,**kw)
            kx='solve'
            if tri and reject and st['Noutliers_triangulated_point']>0: kx='triangulated-outliers-not-returned'
            # the triangulated measurements that were thrown out read 0; the caller cannot know which
            if kx!='solve' and st['x'].shape==x.shape:
                rows=np.array([r[0]=='tri' for r in cost.rowlabels(L)])&(st['x']==0)
                if (np.abs(st['x']-x)<=1e-8*(1+np.abs(x)))[~rows].all():
                    if (np.abs(x[rows])>1e-8).any(): fail('x is not that of the returned solution',key=kx)
                    kx='tri'
                else: kx='solve'
            if kx!='tri' and st['x'].shape!=x.shape or kx!='tri' and not (np.abs(st['x']-x)<=1e-8*(1+np.abs(x))).all(): fail('x is not that of the returned solution',float(np.abs(st['x']-x).max()),key=kx)
            if st['b_packed'].shape!=b.shape or not (np.abs(st['b_packed']-b)<=1e-12*(1+np.abs(b))).all(): fail('b_packed is not the returned solution',float(np.abs(st['b_packed']-b).max()))
            rms=np.sqrt(norm2(st['x'])/len(x))
            if abs(st['rms_reproj_error__pixels']-rms)>1e-9*(1e-6+rms): fail('rms is not that of the returned residuals',st['rms_reproj_error__pixels'],rms)
            nout=int((kw['observations_board'][...,2]<0).sum()) if 'observations_board' in kw else 0
            if st['Noutliers_board']!=nout: fail('Noutliers_board',st['Noutliers_board'],nout)
            c0,c1=norm2(x0),norm2(st['x'])
            if not c1<=c0*(1+1e-9)+1e-18: fail('cost increased',c0,c1)
            # again
            if kx!='solve': continue
            now=snap(kw)
            try: st2=mrcal.optimize(**kw)
            except RuntimeError: fail('a second solve from the solution fails'); continue
            n+=1
            c2=norm2(st2['x'])
            if c2>c1*(1+1e-9)+1e-18: fail('a second solve increases the cost',c1,c2)
            g=J.T@x
            H=(J.T@J).toarray()
            if np.linalg.cond(H)<1e9:
                stay+=1
                if not abs(c2-c1)<=1e-5*(c1+1e-9): fail('a second solve moves on',c1,c2)
                d=np.abs(st2['b_packed']-st['b_packed']).max()
                if d>1e-4: fail('a second solve moves the solution by',d)
                # and the solution is a minimum: the remaining Gauss-Newton step is negligible
                step=np.abs(np.linalg.solve(H,g)).max()
                if step>1e-4: fail('not at a minimum: remaining step',step)
        if len(bad)>6: break
    return bad[:5],n,nsolve,stay

def perfect_case(item):
    """noise-free data, starting at the true geometry"""
    import mrcal,cost,probs
    model,name,args=item
    bad=[]; n=0
    for k,s in enumerate(cost.selections(args.get('tri'),None,args.get('warp'))):
        if s['reg'] or s['unity']: continue
        P=probs.Prob(model,sel=s,**dict(args,noise=0.)); L=P.L
        if not L.Nstate: continue
        for reject in (False,True):
            kw=P.kw(); kw['do_apply_outlier_rejection']=reject
            before=snap(kw)
            b0=mrcal.optimizer_callback(no_jacobian=True,no_factorization=True,**kw)[0]
            try: st=mrcal.optimize(**kw)
            except RuntimeError as e: bad.append(('perfect',s,reject,'solve failed')); continue
            n+=1
            ch=changes(L,before,kw,reject)
            if ch: bad.append(('perfect',s,reject,'changed what was not to be optimized',ch))
            key='perfect'
            if norm2(st['x'])>1e-14: bad.append((key,s,reject,'residuals',norm2(st['x'])))
            d=np.abs(st['b_packed']-b0).max()
            if d>1e-5: bad.append((key,s,reject,'moved by',d))
            # with residuals that are pure rounding noise the (relative) outlier threshold is
            # meaningless, so which outliers are marked isn't looked at here: clean_case() does that
        if len(bad)>6: break
    return bad[:5],n,n,0

def clean_case(item):
    """evenly noisy data: no outlier"""
    import mrcal,probs,cost
    model,args=item
    bad=[]; n=0
    for s in cost.selections(None,None,None):
        P=probs.Prob(model,sel=s,**args); L=P.L
        if not L.Nstate: continue
        start(P,.003)
        kw=P.kw(); kw['do_apply_outlier_rejection']=True
        kw['observations_board'][...,2]=1.
        try: st=mrcal.optimize(**kw)
        except RuntimeError as e: continue
        n+=1
        if st['Noutliers_board'] or (kw['observations_board'][...,2]!=1).any(): bad.append(('outliers','in clean data',s,st['Noutliers_board']))
    return bad[:4],n,n,n
def outlier_case(item):
    """gross outliers planted among good data: they, and only they, are marked"""
    import mrcal,probs
    model,where,start_marked,sel=item
    P=probs.Prob(model,sens=[(0,-1),(1,0)],Nf=4,W=5,H=4,noise=.5,sel=sel)
    start(P,.01)
    kw=P.kw(); kw['do_apply_outlier_rejection']=True
    ob=kw['observations_board']; ob[...,2]=np.abs(ob[...,2])
    want=np.zeros(ob.shape[:-1],bool)
    for (i,y,x),(dx,dy) in where:
        ob[i,y,x,:2]+=(dx,dy); want[i,y,x]=True
    for i,y,x in start_marked:
        ob[i,y,x,2]*=-1; ob[i,y,x,0]+=500; want[i,y,x]=True
    before=snap(kw)
    st=mrcal.optimize(**kw)
    bad=[]
    got=kw['observations_board'][...,2]<0
    # with everything optimized, an outlier can drag the fit away from its neighbors: these may be
    # thrown out too. With few variables it cannot
    few=not sel.get('frames',1)
    if (want&~got).any() or (got!=want).sum()>(0 if few else 8): bad.append(('outliers','planted',np.argwhere(want).tolist(),'marked',np.argwhere(got).tolist()))
    if st['Noutliers_board']!=got.sum(): bad.append(('outliers','count',st['Noutliers_board'],int(got.sum())))
    ch=changes(P.L,before,kw,True)
    if ch: bad.append(('outliers','changed',ch))
    x=mrcal.optimizer_callback(no_jacobian=True,no_factorization=True,**kw)[1]
    if not (np.abs(x-st['x'])<1e-8*(1+np.abs(x))).all(): bad.append(('outliers','x is not that of the returned solution'))
    if not st['rms_reproj_error__pixels']<2: bad.append(('outliers','rms',st['rms_reproj_error__pixels']))
    return bad,1,1,1

TP=np.array(((1,.6,6.),(-1.5,.5,9.),(2,-1,14.),(.2,.1,8.)))
def tri_case(item):
    """triangulated points: thrown out are exactly the ones whose rays diverge at the solution, wherever the solve started"""
    import mrcal
    bad_pts,seed_err,vary=item
    lm='LENSMODEL_PINHOLE'; i=np.array(((1000.,1000.,500.,400.),(1100.,1090.,520.,390.)))
    cam=(np.array((.02,-.03,.01,-1.,.05,.02)),np.array((-.1,.3,.05,-1.2,.1,.3)))[vary%2]
    o=mrcal.ref_calibration_object(5,5,.1)
    rt=np.array(((.1,.2,.3,-.2,-.2,2.),(-.3,.2,.1,.3,-.1,2.2),(.2,-.4,0,.1,-.2,1.9)))
    noise=lambda k,n: .1*np.cos(np.arange(n)*1.7+k)
    proj=lambda c,p: mrcal.project(np.ascontiguousarray(p if c==0 else mrcal.transform_point_rt(cam,p)),lm,i[c])
    obs=[];ind=[];ot=[];it=[]
    for k in range(3):
        for c in range(2):
            q=proj(c,mrcal.transform_point_rt(rt[k],o)); obs.append(np.concatenate((q+noise(k*2+c,q.size).reshape(q.shape),np.ones(q.shape[:-1]+(1,))),-1)); ind.append((k,c,c-1))
    for k in range(len(TP)):
        for c in range(2):
            q=proj(c,TP[k])+noise(30+k*2+c,2)
            # the parallax beyond infinity
            if c and k in bad_pts: q[0]+=1.7*1000/TP[k,2]*1.2
            ot.append(np.append(q,1.)); it.append((k,c,c-1))
    r=[]
    for err in (np.zeros(6),np.array(seed_err)):
        kw=dict(intrinsics=i.copy(),rt_cam_ref=(cam+err)[None],rt_ref_frame=rt.copy(),lensmodel=lm,imagersizes=np.array(((1000,800),)*2,dtype=np.int32),
          observations_board=np.array(obs),calibration_object_spacing=.1,indices_frame_camintrinsics_camextrinsics=np.array(ind,dtype=np.int32),
          observations_point_triangulated=np.array(ot),indices_point_triangulated_camintrinsics_camextrinsics=np.array(it,dtype=np.int32),
          do_optimize_intrinsics_core=False,do_optimize_intrinsics_distortions=False,do_optimize_extrinsics=True,do_optimize_frames=True,do_optimize_calobject_warp=False,
          do_apply_regularization=False,do_apply_outlier_rejection=True)
        s=mrcal.optimize(**kw)
        # which diverge at this solution: the angle by which each ray misses the plane-of-convergence, and its sign
        R=mrcal.Rt_from_rt(mrcal.invert_rt(kw['rt_cam_ref'][0])); div=[]
        for k in range(len(TP)):
            v0=mrcal.unproject(np.array(ot[2*k][:2]),lm,i[0],normalize=True); v1=R[:3]@mrcal.unproject(np.array(ot[2*k+1][:2]),lm,i[1],normalize=True); t=R[3]
            # v0 k0 = t + v1 k1, least squares
            k01=np.linalg.lstsq(np.array((v0,-v1)).T,t,rcond=None)[0]
            div.append(k01.min()<0)
        r.append((s,kw,[k for k in range(len(TP)) if div[k]]))
    out=[]
    for (s,kw,div),nm in zip(r,('the true extrinsics','other extrinsics')):
        if div!=list(bad_pts): return [],0,0,0 # not what this is about
        if s['Noutliers_triangulated_point']!=len(div): out.append(('triangulated-outliers','starting from %s: %d points were thrown out, the rays of %s diverge'%(nm,s['Noutliers_triangulated_point'],div)))
    d=np.abs(r[0][1]['rt_cam_ref']-r[1][1]['rt_cam_ref']).max()
    if d>1e-4: out.append(('triangulated-outliers','the solution depends on the start: %g'%d))
    return out,2,2,2
def main(c,bdir):
    import cost,probs
    th=vf.TIER=='thorough'
    shapes={k:dict(v) for k,v in cost.SHAPES.items()}
    shapes['calibration 5x4']=dict(sens=cost.S3,Nf=4,W=5,H=4)
    shapes['marked outliers']=dict(sens=cost.S3,Nf=3,W=4,H=4,wb={(0,0,0):-1.,(1,2,2):-.3,(4,3,3):-2.})
    jobs=[]
    its=[]
    for m in probs.MODELS:
        for name,a in shapes.items():
            which=1 if th or m=='LENSMODEL_PINHOLE' else 9
            if not th and m in ('LENSMODEL_OPENCV12','LENSMODEL_OPENCV4','LENSMODEL_CAHVORE_linearity=0.00','LENSMODEL_CAHVORE_linearity=-0.50','LENSMODEL_LATLON',probs.SPL3) and name!='boards and points': continue
            for amp in ((.003,.03) if th else (.003,)): its.append((m,name,a,which,amp))
        if 'CAHVORE' not in m and (th or m in ('LENSMODEL_PINHOLE','LENSMODEL_OPENCV5')):
            for name,a in cost.TRI.items():
                if 'boards' in name: a=dict(a,Nf=2,W=4,H=3)
                for nz in (0.,.7): its.append((m,name,dict(a,noise=nz),1,.003))
    jobs.append((solve_case,its))
    its=[]
    for m in (probs.MODELS if th else ('LENSMODEL_PINHOLE','LENSMODEL_OPENCV4','LENSMODEL_CAHVOR','LENSMODEL_LONLAT',probs.SPL2)):
        for name,a in shapes.items():
            if name=='marked outliers': continue
            its.append((m,name,a))
    jobs.append((perfect_case,its))
    pos=[(i,y,x) for i in range(8) for y in range(4) for x in range(5)]
    its=[]
    pr=list(itertools.combinations(pos,2))
    for sel in (dict(frames=0,core=0,dist=0,warp=0),dict(frames=0,ext=0,dist=0,warp=0),dict(frames=0,core=0,dist=0,ext=0),dict()):
        its+=[('LENSMODEL_PINHOLE',[(p,d)],[],sel) for p in pos for d in (((100,0),(0,-100),(60,80)) if th or not sel else ((100,0),(0,-100)))]
        its+=[('LENSMODEL_OPENCV4' if sel else 'LENSMODEL_PINHOLE',[(p,(90,-90))],[pos[(k*7+3)%160]],sel) for k,p in enumerate(pos) if p!=pos[(k*7+3)%160]]
        its+=[('LENSMODEL_PINHOLE',[(a,(120,20)),(b,(-30,-110))],[],sel) for k,(a,b) in enumerate(pr) if sel and (th or a==pos[0] or b==pos[-1])]
    jobs.append((outlier_case,its))
    jobs.append((clean_case,[(m,dict(sens=S,Nf=4,W=5,H=4,noise=.5,vary=v)) for m in ('LENSMODEL_PINHOLE','LENSMODEL_OPENCV4','LENSMODEL_STEREOGRAPHIC',probs.SPL2) for S in (cost.S3,[(0,-1)]) for v in range(6 if th else 2)]))
    jobs.append((tri_case,[(b,tuple(a*sg*x for x in np.eye(6)[k]),v) for n in range(3) for b in itertools.combinations(range(4),n) for k in range(6) for a in ((.02,.1,.25) if k<3 else (.3,1.2)) for sg in (-1,1) for v in range(2)]))
    tot=0; n=0; ns=0; stay=0
    for fn,its in jobs:
        for it,r in zip(its,vf.pmap(fn,its)):
            tot+=1
            if r[0]=='ok':
                bad,a,b,s=r[1]; n+=a; ns+=b; stay+=s
                for x in bad: c.violation(x[0],'%s: %s'%(it,x[1:]),dict(function=fn.__name__,item=it,detail=x))
            else: c.violation(fn.__name__+':'+r[0],'%s: %s'%(it,r[1]),dict(function=fn.__name__,item=it))
            if tot%301==1: c.sample(dict(function=fn.__name__,item=it))
    return dict(evaluations=n,distinct_nontrivial=ns,well_posed=stay,problems=tot,exhaustive=True,
                rule='evaluation: one history (evaluate, solve, evaluate, solve again) of one problem with one selection; distinct_nontrivial: the solve succeeded and its results were compared')
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
if __name__=='__main__': vf.main(main,'P05','exploration')
