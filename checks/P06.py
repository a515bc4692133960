#!/usr/bin/env python3
"""P06: projection, unprojection and the published equations.

Enumerated: lens models (and spline configurations) x parameter sets x a grid of directions over the
valid domain x distances x ways of calling (C, Python, array layouts, broadcasting, outputs)."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf,itertools
import numpy as np

def unit(v): return v/np.sqrt((v*v).sum(-1))[...,None]
def case(item):
    import mrcal,ref,probs,domain,capi
    model,i,dense=item
    bad=[]; n=0
    intr=domain.intrinsics(model,i)
    central='CAHVORE' not in model or (intr[-3:]==0).all()
    if 'CAHVORE' in model and i==3: intr[-3:]=0; central=True
    v=domain.directions(model,dense)
    want=ref.project(model,intr,v)
    # how well this is conditioned: pixels move by at most this for a relative change in the point
    def fail(*a): bad.append((model,i)+a)
    def cmp(what,q,w,tol=1e-9):
        if q is None: return
        q=np.asarray(q)
        if q.shape!=w.shape: fail(what,'shape',q.shape,w.shape); return
        e=np.abs(q-w); lim=tol*(100+np.abs(w))
        ok=(e<=lim)|(np.isnan(q)&np.isnan(w))
        if not ok.all():
            j=np.unravel_index(np.argmin(ok),ok.shape); fail(what,'element',j,'got',q[j],'expected',w[j],'point',v[j[-2]] if len(v)==w.shape[-2] else None)
    tol=1e-9 if model not in('LENSMODEL_LONLAT','LENSMODEL_LATLON','LENSMODEL_STEREOGRAPHIC','LENSMODEL_PINHOLE') else 1e-8
    cmp('project',mrcal.project(v,model,intr),want,tol); n+=len(v)
    r,q,_,_=capi.project(model,intr,v)
    if not r: fail('mrcal_project() failed')
    cmp('C project',q,want,tol); n+=len(v)
    for d in (1e-4,.3,17.,1e5) if central else (.3,17.,1e5): # a noncentral model: not from inside the lens
        w=want if central else ref.project(model,intr,v*d)
        cmp('project at distance %g'%d,mrcal.project(v*d,model,intr),w,tol); n+=len(v)
        cmp('C project at distance %g'%d,capi.project(model,intr,v*d)[1],w,tol); n+=len(v)
    # requesting gradients, each subset, and one at a time
    cmp('project with gradients',mrcal.project(v,model,intr,get_gradients=True)[0],want,tol)
    for k in range(0,len(v),7):
        cmp('one point',mrcal.project(v[k],model,intr)[None],want[k:k+1],tol)
        cmp('one point (C)',capi.project(model,intr,v[k:k+1])[1],want[k:k+1],tol); n+=2
    # unprojection
    if central:
        u=mrcal.unproject(want,model,intr)
        un=mrcal.unproject(want,model,intr,normalize=True)
        r,uc=capi.unproject(model,intr,want)
        ug=mrcal.unproject(want,model,intr,get_gradients=True)[0]
        ugn=mrcal.unproject(want,model,intr,get_gradients=True,normalize=True)[0]
        n+=5*len(v)
        if not r: fail('mrcal_unproject() failed')
        for nm,x in (('unproject',u),('unproject normalized',un),('C unproject',uc),('unproject with gradients',ug),('unproject normalized with gradients',ugn)):
            if x.shape!=v.shape or not np.isfinite(x).all(): fail(nm,'not finite or wrong shape'); continue
            if 'normalized' in nm and not (np.abs((x*x).sum(-1)-1)<1e-12).all(): fail(nm,'not normalized')
            e=np.abs(unit(x)-v).max(-1)
            j=int(np.argmax(e))
            if e[j]>2e-7: fail(nm,'direction',v[j],unit(x)[j],e[j])
            cmp('project(%s)'%nm,mrcal.project(x,model,intr),want,1e-7)
        # pixels on a grid: inside the part of the imager the valid domain covers
        lo,hi=want.min(0),want.max(0)
        Q=np.stack(np.meshgrid(np.linspace(lo[0],hi[0],9*dense),np.linspace(lo[1],hi[1],9*dense)),-1).reshape(-1,2)
        pv=mrcal.unproject(Q,model,intr,normalize=True)
        with np.errstate(all='ignore'):
            inside=np.isfinite(pv).all(-1)&((pv*pv).sum(-1)>.5)&(pv[:,2]>np.cos(np.radians(domain.limit(model)*.95)))
        if model in domain.SIMPLE and model!='LENSMODEL_STEREOGRAPHIC': inside[:]=True
        Q=Q[inside]
        if len(Q): cmp('project(unproject(q))',mrcal.project(mrcal.unproject(Q,model,intr),model,intr),Q,1e-7); n+=len(Q)
        vc=capi.unproject(model,intr,Q)[1]
        if len(Q): cmp('C project(unproject(q))',capi.project(model,intr,vc)[1],Q,1e-7)
    else:
        # noncentral: there is no unprojection, and this is an error
        try: mrcal.unproject(want,model,intr); fail('unproject() of a noncentral model returned a result')
        except Exception: pass
        r,uc=capi.unproject(model,intr,want)
        if r: fail('mrcal_unproject() of a noncentral model reports success')
        # with any of the noncentral terms
        for k in itertools.product((0.,1e-3,-.2),repeat=3):
            i3=intr.copy(); i3[-3:]=k; n+=1
            try: mrcal.unproject(want[:1],model,i3); ok=True
            except Exception: ok=False
            r,uc=capi.unproject(model,i3,want[:1])
            if ok!=(not any(k)) or bool(r)!=ok: fail('unproject() with the noncentral terms %s %s, mrcal_unproject() %s'%(k,'returned a result' if ok else 'raised',r))
    # the four simple models have their own functions
    if model in domain.SIMPLE:
        k=domain.SIMPLE[model]
        P=getattr(mrcal,'project_'+k); U=getattr(mrcal,'unproject_'+k)
        cmp('project_'+k,P(v,intr),want,tol); cmp('project_%s (gradients)'%k,P(v,intr,get_gradients=True)[0],want,tol)
        cmp('project_%s (scaled point)'%k,P(v*33.,intr),want,tol)
        I=np.array((1.,1,0,0)); w1=ref.project(model,I,v)
        cmp('project_%s default'%k,P(v),w1,tol)
        for nm,x in (('unproject_'+k,U(want,intr)),('unproject_%s (gradients)'%k,U(want,intr,get_gradients=True)[0]),('unproject_%s default'%k,U(w1)),
                     ('C',capi.simple(k,'unproject',want,intr,False)[0]),('C (gradients)',capi.simple(k,'unproject',want,intr,True)[0])):
            e=np.abs(unit(x)-v).max()
            if not e<2e-7: fail(nm,e)
        for g in (False,True): cmp('C project_'+k,capi.simple(k,'project',v,intr,g)[0],want,tol)
        n+=12*len(v)
    # memory layouts. Those that cannot be processed are refused
    class refused(Exception): pass
    def att(f,*a,**k):
        try: return f(*a,**k)
        except RuntimeError as e:
            if 'contiguous' in str(e): return None
            raise
    m=24; v4=v[:m].copy(); w4=want[:m]
    def layouts(x,c):
        """the same values in several layouts"""
        yield 'C',x.copy()
        b=np.full(x.shape+(2,),7.); b[...,0]=x; yield 'strided',b[...,0]
        yield 'reversed',x[::-1,::-1].copy()[::-1,::-1]
        yield 'transposed',np.asfortranarray(x)
        b=np.full((x.shape[0]*2,x.shape[1]+1),7.); b[::2,:c]=x; yield 'sub-block',b[::2,:c]
        yield 'negative rows',x[::-1].copy()[::-1]
    for nm,x in layouts(v4,3):
        x0=x.copy()
        cmp('project, points '+nm,att(mrcal.project,x,model,intr),w4,tol); n+=1
        if not (x==x0).all(): fail('project changed its input',nm)
    if central:
        u4=mrcal.unproject(w4,model,intr,normalize=True)
        for nm,x in layouts(w4,2):
            x0=x.copy()
            cmp('unproject, pixels '+nm,att(mrcal.unproject,x,model,intr,normalize=True),u4,1e-9); n+=1
            cmp('unproject+gradients, pixels '+nm,(att(mrcal.unproject,x,model,intr,normalize=True,get_gradients=True) or (None,))[0],u4,1e-9); n+=1
            if not (x==x0).all(): fail('unproject changed its input',nm)
    i2=domain.intrinsics(model,i+1)
    if 'CAHVORE' in model: i2[-3:]=intr[-3:]
    both=np.array((intr,i2)); w2=ref.project(model,i2,v4)
    b=np.full((4,len(intr)+2),7.); b[::2,1:-1]=both
    for nm,I in (('C',both),('strided',b[::2,1:-1]),('reversed',both[::-1].copy()[::-1]),('transposed',np.asfortranarray(both))):
        cmp('broadcast intrinsics '+nm,att(mrcal.project,v4,model,I[:,None,:]),np.array((w4,w2)),tol)
        cmp('paired',att(mrcal.project,v4[:2],model,I),np.array((w4[0],w2[1])),tol); n+=2
        if central:
            u2=mrcal.unproject(w4[:4],model,i2,normalize=True)
            cmp('unproject, broadcast intrinsics '+nm,att(mrcal.unproject,w4[:4],model,I[:,None,:],normalize=True),np.array((u4[:4],u2)),1e-9); n+=1
    for shape in ((m//2,2),(2,m//2),(1,m),(m,1),(2,3,m//6)):
        cmp('shape',mrcal.project(v4.reshape(shape+(3,)),model,intr),w4.reshape(shape+(2,)),tol)
        if central: cmp('unproject shape',mrcal.unproject(w4.reshape(shape+(2,)),model,intr,normalize=True),u4.reshape(shape+(3,)),1e-9)
        n+=2
    # no points at all
    if mrcal.project(np.zeros((0,3)),model,intr).shape!=(0,2): fail('no points')
    # destinations
    for nm,o in (('C',np.full((m,2),7.)),('strided',np.full((m,2,2),7.)[...,0]),('reversed',np.full((m,2),7.)[::-1,::-1]),('sub-block',np.full((2*m,4),7.)[::2,1:3])):
        base=o.base if o.base is not None else o
        try: r=mrcal.project(v4,model,intr,out=o)
        except Exception: 
            if (base!=7).any(): fail('a refused output was written',nm)
            continue
        cmp('out '+nm,o,w4,tol); n+=1
        if r is not o: fail('out is not returned',nm)
        o[:]=7.
        if (base!=7).any(): fail('wrote outside the output',nm)
    if central:
        o=np.full((m,3),7.); r=mrcal.unproject(w4,model,intr,normalize=True,out=o); cmp('unproject out',o,u4,1e-9)
        o=(np.full((m,3),7.),np.full((m,3,2),7.),np.full((m,3,len(intr)),7.)); r=mrcal.unproject(w4,model,intr,normalize=True,get_gradients=True,out=o); cmp('unproject out with gradients',o[0],u4,1e-9)
    return bad[:6],n
def main(c,bdir):
    import domain
    th=vf.TIER=='thorough'
    items=[(m,i,d) for m in domain.ALL for i in range(4) for d in ((1,2,4,8) if th else (1,3))]
    if th:
        items+=[('LENSMODEL_SPLINED_STEREOGRAPHIC_order=%d_Nx=%d_Ny=%d_fov_x_deg=%d'%t,i,2) for t in itertools.product((2,3),range(4,13),range(4,11),(20,75,120,170)) for i in range(4)]
    else:
        items+=[('LENSMODEL_SPLINED_STEREOGRAPHIC_order=%d_Nx=%d_Ny=%d_fov_x_deg=%d'%t,1,1) for t in itertools.product((2,3),range(4,10),range(4,8),(30,120))]
    n=0
    for it,r in zip(items,vf.pmap(case,items)):
        if r[0]=='ok':
            bad,k=r[1]; n+=k
            for b in bad: c.violation('projection','%s: %s'%(it,b),dict(item=it,detail=b))
        else: c.violation('case:'+r[0],'%s: %s'%(it,r[1]),dict(item=it))
    for it in items[::31]: c.sample(dict(model=it[0],parameter_set=it[1]))
    return dict(evaluations=n,distinct_nontrivial=n,cases=len(items),exhaustive=True,
                rule='evaluation: one projection or unprojection of one grid point through one way of calling; all are nontrivial: each is compared with the reference')
if __name__=='__main__': vf.main(main,'P06','exploration')
