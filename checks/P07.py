#!/usr/bin/env python3
"""P07: gradients of projection and unprojection; and independence of what is requested.

The space is P06's: lens models x parameter sets x a grid of directions; for each, every subset of
outputs x every number of points x C or Python x array layouts. The expected derivatives come from
the complex-step derivative of the published equations (lib/ref.py)."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf,itertools
import numpy as np
H=1e-30
def dproject(model,intr,v):
    import ref
    dp=np.stack([ref.project(model,intr,v+1j*H*e).imag/H for e in np.eye(3)],-1)
    di=np.stack([ref.project(model,intr+1j*H*e,v).imag/H for e in np.eye(len(intr))],-1)
    return dp,di
def unit(v): return v/np.sqrt((v*v).sum(-1))[...,None]
def case(item):
    import mrcal,ref,probs,domain,capi
    model,i,dense=item
    bad=[]; n=0
    intr=domain.intrinsics(model,i)
    central='CAHVORE' not in model or (intr[-3:]==0).all()
    if 'CAHVORE' in model and i==3: intr[-3:]=0; central=True
    v=domain.directions(model,dense)
    if not central or model=='LENSMODEL_LONLAT' or model=='LENSMODEL_LATLON': pass
    v=v*(1.+.5*np.sin(np.arange(len(v))))[:,None]*3.
    # derivatives at the very axis of noncentral or polar parametrizations are limits: off by a little is fine
    N=len(v)
    with np.errstate(all='ignore'): q0=ref.project(model,intr,v); dp0,di0=dproject(model,intr,v)
    usable=np.isfinite(q0).all(-1)&np.isfinite(dp0).all((-1,-2))&np.isfinite(di0).all((-1,-2))
    if 'CAHVORE' in model: usable&=np.hypot(v[:,0],v[:,1])>1e-3*v[:,2]*0   # kept: has to be finite
    v,q0,dp0,di0=[x[usable] for x in (v,q0,dp0,di0)]
    N=len(v)
    def fail(*a): bad.append((model,i)+a)
    tol=1e-7 if model in ('LENSMODEL_LONLAT','LENSMODEL_LATLON') or 'CAHVORE' in model else 1e-8
    def cmp(what,g,w,tol=tol):
        if g is None: return
        g=np.asarray(g)
        if g.shape!=w.shape: fail(what,'shape',g.shape,w.shape); return
        # relative to the largest entry of the row
        s=np.abs(w).max(-1,keepdims=True)
        ok=np.abs(g-w)<=tol*(s+1e-3)
        if not ok.all():
            j=np.unravel_index(np.argmin(ok),ok.shape); fail(what,'element',j,'reported',g[j],'is',w[j])
    def same(what,a,b,tol=1e-12):
        if a is None or b is None: return
        if a.shape!=b.shape or not ((np.abs(a-b)<=tol*(1+np.abs(b)))|(np.isnan(a)&np.isnan(b))).all(): fail(what,'differs',float(np.abs(a-b).max()) if a.shape==b.shape else (a.shape,b.shape))
    q,dp,di=mrcal.project(v,model,intr,get_gradients=True); n+=N
    qn=mrcal.project(v,model,intr); n+=N
    same('values without gradients',qn,q,1e-11)
    cmp('dq/dp',dp,dp0); cmp('dq/dintrinsics',di,di0)
    # C: every subset of outputs, any number of points
    for wp,wi in itertools.product((False,True),repeat=2):
        for lo,hi in [(0,k) for k in range(0,7)]+[(k,k+1) for k in range(0,N,11)]+[(5,5+k) for k in (2,3,8)]+[(0,N)]:
            r,cq,cp,ci=capi.project(model,intr,v[lo:hi],wp,wi); n+=hi-lo
            if not r: fail('mrcal_project() failed',wp,wi,lo,hi); continue
            same('C value, outputs %s'%((wp,wi),),cq,q[lo:hi],1e-11)
            same('C dq/dp, outputs %s, %d points'%((wp,wi),hi-lo),cp,dp[lo:hi],1e-10)
            same('C dq/dintrinsics, outputs %s, %d points'%((wp,wi),hi-lo),ci,di[lo:hi],1e-10)
            if len(bad)>5: return bad[:6],n
    for k in range(0,N,9):
        a=mrcal.project(v[k],model,intr,get_gradients=True); n+=1
        same('one point',a[0],q[k]); same('one point dq/dp',a[1],dp[k]); same('one point dq/di',a[2],di[k])
    if model in domain.SIMPLE:
        k=domain.SIMPLE[model]
        P=getattr(mrcal,'project_'+k); U=getattr(mrcal,'unproject_'+k)
        a=P(v,intr,get_gradients=True); cmp('project_%s dq/dp'%k,a[1],dp0); same('project_%s value'%k,a[0],P(v,intr),1e-12); n+=2*N
        I=np.array((1.,1,0,0)); cmp('project_%s default dq/dp'%k,P(v,get_gradients=True)[1],dproject(model,I,v)[0])
        for lo,hi in ((0,0),(0,1),(0,2),(3,6),(0,N)):
            x,g=capi.simple(k,'project',v[lo:hi],intr,True); n+=hi-lo
            same('C project_%s'%k,x,q[lo:hi],1e-10); same('C project_%s gradient'%k,g,dp[lo:hi],1e-10)
            same('C project_%s without gradient'%k,capi.simple(k,'project',v[lo:hi],intr,False)[0],x)
            x,g=capi.simple(k,'unproject',q0[lo:hi],intr,True)
            y,gy=U(q0[lo:hi],intr,get_gradients=True)
            same('C unproject_%s'%k,x,y,1e-11); same('C unproject_%s gradient'%k,g,gy,1e-10)
            same('C unproject_%s without gradient'%k,capi.simple(k,'unproject',q0[lo:hi],intr,False)[0],x,1e-12)
            same('unproject_%s without gradient'%k,U(q0[lo:hi],intr),y,1e-12)
    # unprojection. On the unit sphere: dn/dq = T inv(dq/dn T), with T a basis of the tangent plane
    if central:
        def expected(nn,dpn,din):
            a=np.where(np.abs(nn[:,:1])<.7,np.array((1.,0,0)),np.array((0,1.,0)))
            t1=unit(np.cross(nn,a)); t2=np.cross(nn,t1); T=np.stack((t1,t2),-1)
            dn=T@np.linalg.inv(dpn@T)
            return dn,-dn@din
        nn=unit(v); mag=np.sqrt((v*v).sum(-1))
        dn,dni=expected(nn,dp0*mag[:,None,None],di0)
        # where the projection is singular there is no such derivative
        good=np.linalg.cond(dp0@np.stack((unit(np.cross(nn,np.where(np.abs(nn[:,:1])<.7,np.array((1.,0,0)),np.array((0,1.,0))))),)*1+(np.cross(nn,unit(np.cross(nn,np.where(np.abs(nn[:,:1])<.7,np.array((1.,0,0)),np.array((0,1.,0)))))),),-1))<1e3
        # tiny angles: cross products of nearly parallel vectors are fine here (a is not along nn)
        g=good
        ut=1e-5
        w,wq,wi=mrcal.unproject(q0[g],model,intr,normalize=True,get_gradients=True); n+=g.sum()
        same('unproject normalized value',mrcal.unproject(q0[g],model,intr,normalize=True),w,1e-8)
        cmp('dn/dq',wq,dn[g],ut); E=len(intr)-3 if 'CAHVORE' in model else len(intr)  # unproject() requires E=0; d/dE would depend on the range
        cmp('dn/dintrinsics',wi[...,:E],dni[g][...,:E],ut)
        if np.abs((w[:,:,None]*wq).sum(1)).max()>1e-9*np.abs(wq).max() or np.abs((w[:,:,None]*wi).sum(1)).max()>1e-9*(np.abs(wi).max()+1e-9): fail('gradients of the normalized vector are not orthogonal to it')
        w,wq,wi=mrcal.unproject(q0[g],model,intr,get_gradients=True); n+=g.sum()
        m=np.sqrt((w*w).sum(-1)); u=w/m[:,None]
        def tang(d): return (d-u[:,:,None]*(u[:,:,None]*d).sum(1,keepdims=True))/m[:,None,None]
        cmp('unproject dv/dq, transverse',tang(wq),dn[g],ut); cmp('unproject dv/dintrinsics, transverse',tang(wi)[...,:E],dni[g][...,:E],ut)
        # along the ray: the reported vector's own length, by central differences
        sub=np.arange(0,g.sum(),max(1,g.sum()//12)); qs=q0[g][sub]
        L=lambda qq,ii: np.sqrt((mrcal.unproject(qq,model,ii,get_gradients=True)[0]**2).sum(-1))
        lo=(u[:,:,None]*wq).sum(1)[sub]; li=(u[:,:,None]*wi).sum(1)[sub]
        for k,e in enumerate(np.eye(2)):
            h=3e-3; d=(L(qs+h*e,intr)-L(qs-h*e,intr))/(2*h); n+=2*len(qs)
            if not (np.abs(d-lo[:,k])<=1e-4*(np.abs(wq[sub]).max((1,2)))).all(): fail('unproject dv/dq, along the ray',k,d[:3],lo[:3,k])
        for k in list(range(4))+list(range(4,len(intr),max(1,(len(intr)-4)//6))):
            if 'CAHVORE' in model and k>=len(intr)-3: continue  # unprojecting with E!=0 is refused
            h=3e-3 if k<4 else 1e-5; e=np.zeros(len(intr)); e[k]=h
            d=(L(qs,intr+e)-L(qs,intr-e))/(2*h); n+=2*len(qs)
            if not (np.abs(d-li[:,k])<=1e-4*(np.abs(wi[sub][:,:,k]).max(1)+np.abs(wq[sub]).max((1,2)))+1e-4*np.abs(wi[...,:E]).max()).all(): fail('unproject dv/dintrinsics, along the ray',k,d[:3],li[:3,k])
        for k in range(0,len(w),13):
            a=mrcal.unproject(q0[g][k],model,intr,get_gradients=True); n+=1
            for x,y in zip(a,(w,wq,wi)): same('unproject one point',x,y[k],1e-10)
        full=(w,wq,wi)
    # layouts, broadcasting, destinations
    def att(f,*a,**k):
        try: return f(*a,**k)
        except RuntimeError as e:
            if 'contiguous' in str(e): return None
            raise
    m=12; vs=v[:m].copy(); i2=domain.intrinsics(model,i+1)
    if 'CAHVORE' in model: i2[-3:]=intr[-3:]
    both=np.array((intr,i2)); b=np.full((4,len(intr)+2),7.); b[::2,1:-1]=both
    sv=np.full((2*m,5),7.); sv[::2,1:4]=vs
    one=[mrcal.project(vs,model,k,get_gradients=True) for k in both]
    for vv in (vs,sv[::2,1:4],vs[::-1].copy()[::-1],np.asfortranarray(vs)):
        for I in (both,b[::2,1:-1],both[::-1].copy()[::-1],np.asfortranarray(both)):
            r=att(mrcal.project,vv,model,I[:,None,:],get_gradients=True); n+=1
            if r: 
                for k in range(3): same('broadcast',r[k],np.array((one[0][k],one[1][k])))
    if central:
        qq=q0[g][:m].copy(); sq=np.full((2*len(qq),4),7.); sq[::2,1:3]=qq
        for nrm in (False,True):
            one=[mrcal.unproject(qq,model,k,get_gradients=True,normalize=nrm) for k in both]
            if nrm is False: same('unproject, fewer points',one[0][0],full[0][:m],1e-10)
            for vv in (qq,sq[::2,1:3],qq[::-1].copy()[::-1]):
                for I in (both,b[::2,1:-1],both[::-1].copy()[::-1]):
                    r=att(mrcal.unproject,vv,model,I[:,None,:],get_gradients=True,normalize=nrm); n+=1
                    if r:
                        # out of the second model's domain the gradients have no meaning
                        z=np.isfinite(one[0][0]).all(-1)&np.isfinite(one[1][0]).all(-1)
                        for k in range(3): same('unproject broadcast',r[k][:,z],np.array((one[0][k],one[1][k]))[:,z],1e-10)
                        same('unproject broadcast',r[0][...,:2],np.array((one[0][0],one[1][0]))[...,:2],1e-10)
    ni=len(intr)
    def dests(M,a):
        for nm,f in (('C',lambda s: np.full(s,7.)),('strided rows',lambda s: np.full((2*s[0],)+s[1:],7.)[::2]),('strided columns',lambda s: np.full(s+(2,),7.)[...,1]),('reversed',lambda s: np.full(s,7.)[::-1])):
            yield nm,tuple(f((M,)+s) for s in a)
    calls=[(mrcal.project,vs,((2,),(2,3),(2,ni)),{},'project')]
    if central: calls+=[(mrcal.unproject,qq,((3,),(3,2),(3,ni)),dict(normalize=x),'unproject') for x in (False,True)]
    for f,x,sh,k2,nm2 in calls:
        w=f(x,model,intr,get_gradients=True,**k2)
        for nm,o in dests(len(x),sh):
            try: r=f(x,model,intr,get_gradients=True,out=o,**k2)
            except Exception as e:
                if nm=='C': fail(nm2,'out',nm,repr(e))
                continue
            n+=1
            for a,y in zip(o,w): same('%s out=%s'%(nm2,nm),a,y,1e-10)
            for a in o:
                bs=a.base if a.base is not None else a
                a[:]=7.
                if (bs!=7.).any(): fail(nm2,'wrote outside the output',nm)
    return bad[:6],n
def main(c,bdir):
    import domain
    th=vf.TIER=='thorough'
    items=[(m,i,d) for m in domain.ALL for i in range(4) for d in ((1,3) if th else (1,))]
    items+=[('LENSMODEL_SPLINED_STEREOGRAPHIC_order=%d_Nx=%d_Ny=%d_fov_x_deg=%d'%t,i,1) for t in itertools.product((2,3),range(4,10 if th else 7),range(4,9 if th else 6),(30,120)) for i in ((1,2,3) if th else (1,))]
    n=0
    for it,r in zip(items,vf.pmap(case,items)):
        if r[0]=='ok':
            bad,k=r[1]; n+=int(k)
            for b in bad: c.violation('gradient','%s: %s'%(it,b),dict(item=it,detail=b))
        else: c.violation('case:'+r[0],'%s: %s'%(it,r[1]),dict(item=it))
    for it in items[::31]: c.sample(dict(model=it[0],parameter_set=it[1]))
    return dict(evaluations=n,distinct_nontrivial=n,cases=len(items),exhaustive=True,
                rule='evaluation: one (un)projection of one grid point with one subset of outputs; each is compared with the reference derivative or with the full request')
if __name__=='__main__': vf.main(main,'P07','exploration')
