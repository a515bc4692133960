#!/usr/bin/env python3
"""P10: gradients of the pose operations, over all pairs from the alphabet of P09, against analytic
derivatives in extended precision; and every subset of the requested outputs in the C API.

The gradient of a composed rotation vector is compared through the rotation matrix it describes: which
of the equivalent rotation vectors is reported doesn't matter."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf,itertools
import numpy as np
from P09 import B
I3=np.eye(3)
def tinytol(rs): # rotate_point_r() drops terms of 2nd order in a rotation below 1e-5 radians: its gradient is good to |r| there
    m=np.sqrt((rs*rs).sum(-1)); return np.where(m<1.1e-5,1.5*m,0)
def tiny2(rs): # and others do that below ~2e-8
    m=np.sqrt((rs*rs).sum(-1)); return np.where(m<1e-7,1.5*m,0)
def one(_):
    import mrcal,poses
    b=B(); rs=poses.rotations(); N=len(rs)
    at=lambda i: rs[i[0]].tolist()
    R,dR=poses.R(rs,True); Rf=R.astype(float)
    v,g=mrcal.R_from_r(rs,get_gradients=True); b.eq('dR/dr',g,dR,(1e-12+tinytol(rs))[:,None,None,None],at); b.eq('R value',v,mrcal.R_from_r(rs),1e-14,at)
    r2,J=mrcal.r_from_R(Rf,get_gradients=True); b.eq('r value',r2,mrcal.r_from_R(Rf),1e-14,at)
    dR2=poses.R(r2,True)[1]
    b.eq('dr/dR dR/dr = I',np.einsum('nkab,nabl->nkl',J,dR2),np.broadcast_to(I3,(N,3,3)),1e-9,at)
    for t in poses.TS:
        s=1+np.abs(t).max()
        rt=np.concatenate((rs,np.broadcast_to(t,rs.shape)),-1); Rt=poses.Rt(rt).astype(float)
        a,ga=mrcal.Rt_from_rt(rt,get_gradients=True); b.eq('Rt_from_rt value',a,mrcal.Rt_from_rt(rt),1e-14*s,at); b.eq('Rt_from_rt dR/dr',ga,g,1e-14,at)
        a,ga=mrcal.rt_from_Rt(Rt,get_gradients=True); b.eq('rt_from_Rt value',a,mrcal.rt_from_Rt(Rt),1e-14*s,at); b.eq('rt_from_Rt dr/dR',ga,J,1e-12,at)
        a,ga=mrcal.invert_rt(rt,get_gradients=True); b.eq('invert_rt value',a,mrcal.invert_rt(rt),1e-13*s,at)
        w=np.zeros((N,6,6)); w[:,:3,:3]=-I3; w[:,3:,3:]=-np.swapaxes(Rf,-1,-2); w[:,3:,:3]=-np.einsum('nabk,a->nbk',dR,t.astype(poses.LD))
        b.eq('invert_rt gradient',ga,w,(1e-11+tinytol(rs)*1.)[:,None,None]*s,at)
        for x in np.array([(0,0,0),(1.,0,0),(-3.,2,.7),(1e5,-2e4,3e3)]):
            sx=s+np.abs(x).max(); tl=((1e-11+tinytol(rs))*sx)[:,None,None]
            for inv in (False,True):
                e=np.broadcast_to(x,rs.shape)-t if inv else np.broadcast_to(x,rs.shape)
                Rm=np.swapaxes(R,-1,-2) if inv else R; dRm=np.swapaxes(dR,-2,-3) if inv else dR
                Jr=np.einsum('nabk,nb->nak',dRm,e)
                Jt=-Rm if inv else np.broadcast_to(I3,(N,3,3))
                y,j0,jx=mrcal.transform_point_rt(rt,x,get_gradients=True,inverted=inv)
                b.eq('transform_point_rt value %s'%inv,y,mrcal.transform_point_rt(rt,x,inverted=inv),1e-13*sx,at)
                b.eq('transform_point_rt d/dr %s'%inv,j0[...,:3],Jr,tl,at); b.eq('transform_point_rt d/dt %s'%inv,j0[...,3:],Jt,1e-10,at); b.eq('transform_point_rt d/dx %s'%inv,jx,Rm,1e-10,at)
                y,j0,jx=mrcal.transform_point_Rt(Rt,x,get_gradients=True,inverted=inv)
                b.eq('transform_point_Rt value %s'%inv,y,mrcal.transform_point_Rt(Rt,x,inverted=inv),1e-13*sx,at)
                w=np.zeros((N,3,4,3))
                for i in range(3):
                    for k in range(3):
                        if not inv: w[:,i,i,k]=x[k]
                        else: w[:,i,k,i]=e[:,k]; w[:,i,3,k]=-Rf[:,k,i]
                    if not inv: w[:,i,3,i]=1
                b.eq('transform_point_Rt d/dRt %s'%inv,j0,w,1e-13*sx,at); b.eq('transform_point_Rt d/dx %s'%inv,jx,Rm,1e-14,at)
                if not t.any():
                    y,j0,jx=mrcal.rotate_point_r(rs,x,get_gradients=True,inverted=inv)
                    b.eq('rotate_point_r value %s'%inv,y,mrcal.rotate_point_r(rs,x,inverted=inv),1e-13*sx,at)
                    b.eq('rotate_point_r d/dr %s'%inv,j0,Jr,tl,at); b.eq('rotate_point_r d/dx %s'%inv,jx,Rm,1e-10,at)
                    y,j0,jx=mrcal.rotate_point_R(Rf,x,get_gradients=True,inverted=inv)
                    b.eq('rotate_point_R value %s'%inv,y,mrcal.rotate_point_R(Rf,x,inverted=inv),1e-13*sx,at)
                    b.eq('rotate_point_R d/dR %s'%inv,j0,w[:,:,:3],1e-13*sx,at); b.eq('rotate_point_R d/dx %s'%inv,jx,Rm,1e-14,at)
        # composition with an infinitesimal transform
        L=poses.LD
        z=np.zeros(3); d0=poses.R(z,True)[1]
        sing=_singular(rs)
        J0=mrcal.compose_rt_tinyrt0_gradientrt0(rt); r01=rs
        w=np.einsum('abk,nbc->nack',d0,R); g0=np.einsum('nabl,nlk->nabk',dR,J0[:,:3,:3])
        b.eq('tinyrt0 dr/dr0',g0[~sing],w[~sing],(1e-9+tiny2(rs[~sing]))[:,None,None,None],lambda i: rs[~sing][i[0]].tolist())
        b.eq('tinyr0',mrcal.compose_r_tinyr0_gradientr0(rs)[~sing],J0[~sing][:,:3,:3],(1e-12+tiny2(rs[~sing]))[:,None,None],lambda i: rs[~sing][i[0]].tolist())
        w=np.zeros((N,6,6)); w[:,3:,3:]=I3; w[:,3:,:3]=-mrcal.skew_symmetric(t); w[:,:3,:3]=J0[:,:3,:3]
        b.eq('tinyrt0',J0,w,1e-14*s,at)
        J1=mrcal.compose_rt_tinyrt1_gradientrt1(rt)
        w=np.einsum('nab,bck->nack',R,d0); g1=np.einsum('nabl,nlk->nabk',dR,J1[:,:3,:3])
        b.eq('tinyrt1 dr/dr1',g1[~sing],w[~sing],(1e-9+tiny2(rs[~sing]))[:,None,None,None],lambda i: rs[~sing][i[0]].tolist())
        b.eq('tinyr1',mrcal.compose_r_tinyr1_gradientr1(rs)[~sing],J1[~sing][:,:3,:3],(1e-12+tiny2(rs[~sing]))[:,None,None],lambda i: rs[~sing][i[0]].tolist())
        w=np.zeros((N,6,6)); w[:,3:,3:]=Rf; w[:,:3,:3]=J1[:,:3,:3]
        b.eq('tinyrt1',J1,w,1e-10,at)
    return b.bad[:10],b.n
def _singular(rs): # a full turn (other than none): the rotation vector isn't differentiable
    m=np.sqrt((rs*rs).sum(-1)); k=np.round(m/(2*np.pi)); return (k>0)&(np.abs(m-k*2*np.pi)<2e-4)
def pairs(item):
    import mrcal,poses
    k0,k1=item
    b=B(); rs=poses.rotations(); N=len(rs)
    R1,dR1=poses.R(rs,True); t1=np.array([poses.TS[i%len(poses.TS)]*(1+.01*i) for i in range(N)])
    rt1=np.concatenate((rs,t1),-1); T=lambda x: np.swapaxes(x,-1,-2)
    dT=lambda x: np.swapaxes(x,-2,-3)
    m1=np.sqrt((rs*rs).sum(-1))
    for k in range(k0,min(k1,N)):
        r0=rs[k]; t0=poses.TS[(k*3+1)%len(poses.TS)]; rt0=np.concatenate((r0,t0))
        R0,dR0=poses.R(r0,True)
        at=lambda i: (r0.tolist(),rs[i[0]].tolist())
        s=(2+np.abs(t0).max()+np.abs(t1).max(-1))[:,None,None]
        for i0,i1 in itertools.product((False,True),repeat=2):
            a,da=(T(R0),dT(dR0)) if i0 else (R0,dR0)
            c,dc=(T(R1),dT(dR1)) if i1 else (R1,dR1)
            w0=np.einsum('abk,nbc->nack',da,c); w1=np.einsum('ab,nbck->nack',a,dc)
            r,g0,g1=mrcal.compose_r(r0,rs,get_gradients=True,inverted0=i0,inverted1=i1)
            b.eq('compose_r value with gradients',r,mrcal.compose_r(r0,rs,inverted0=i0,inverted1=i1),1e-13,at)
            ok=~_singular(r)
            if _singular(r0[None])[0]: ok&=m1>1e-3
            if (r0*r0).sum()<1e-6: ok&=~_singular(rs)
            dr=poses.R(r,True)[1]
            fin=np.isfinite(g0).all((-1,-2))&np.isfinite(g1).all((-1,-2))
            if not fin[ok].all(): b.bad.append(('compose_r gradient is not finite',at((np.argmin(fin|~ok),))))
            with np.errstate(invalid='ignore'):
                h0=np.einsum('nabl,nlk->nabk',dr,g0); h1=np.einsum('nabl,nlk->nabk',dr,g1)
            aok=lambda i: (r0.tolist(),rs[ok][i[0]].tolist())
            b.eq('compose_r d/dr0 %s'%((i0,i1),),h0[ok],w0[ok],2e-6,aok)
            b.eq('compose_r d/dr1 %s'%((i0,i1),),h1[ok],w1[ok],2e-6,aok)
            x,x0,x1=mrcal.compose_rt(rt0,rt1,get_gradients=True,inverted0=i0,inverted1=i1)
            b.eq('compose_rt value with gradients',x,mrcal.compose_rt(rt0,rt1,inverted0=i0,inverted1=i1),1e-12*s[:,:,0],at)
            b.eq('compose_rt dr/dr0',x0[ok][:,:3,:3],g0[ok],1e-12,aok); b.eq('compose_rt dr/dr1',x1[ok][:,:3,:3],g1[ok],1e-12,aok)
            b.eq('compose_rt dr/dt0',x0[:,:3,3:],np.zeros((N,3,3)),0,at); b.eq('compose_rt dr/dt1',x1[:,:3,3:],np.zeros((N,3,3)),0,at)
            # t = t0' + A t1'; t0' = t0 or -R0^T t0; t1' = t1 or -R1^T t1
            u1=-np.einsum('nab,nb->na',T(R1),t1.astype(poses.LD)) if i1 else t1.astype(poses.LD)
            z=np.einsum('abk,nb->nak',da,u1)
            if i0: z=z-np.einsum('abk,b->ak',da,t0.astype(poses.LD))
            tl=(1e-10+tinytol(r0[None])+(tinytol(rs)[:,None,None] if i1 else 0))*s
            b.eq('compose_rt dt/dr0 %s'%((i0,i1),),x0[:,3:,:3],z,tl,at)
            b.eq('compose_rt dt/dt0 %s'%((i0,i1),),x0[:,3:,3:],np.broadcast_to(-T(R0) if i0 else I3,(N,3,3)),1e-10,at)
            z=np.einsum('ab,nbk->nak',a,-np.einsum('nabk,nb->nak',dc,t1.astype(poses.LD))) if i1 else np.zeros((N,3,3))
            b.eq('compose_rt dt/dr1 %s'%((i0,i1),),x1[:,3:,:3],z,tl,at)
            z=-np.einsum('ab,nbc->nac',a,c) if i1 else np.broadcast_to(a,(N,3,3))
            b.eq('compose_rt dt/dt1 %s'%((i0,i1),),x1[:,3:,3:],z,1e-10,at)
            if len(b.bad)>8: return b.bad[:8],b.n
    return b.bad[:8],b.n
def csubsets(th):
    """C API: every subset of outputs"""
    import capi,poses,mrcal,ctypes as C
    l=capi.lib(); b=B(); D=capi.D; G=capi.G
    rs=poses.rotations(poses.AXES[[0,7,12]],(0,1e-9,9e-6,.3,2.5,np.pi,4.,2*np.pi-.3))
    def buf(n): return np.full(n+3,G)
    def run(f,shapes,args,want,what):
        for mask in itertools.product((0,1),repeat=len(shapes)-1):
            m=(1,)+mask
            o=[buf(int(np.prod(s))) if k else None for s,k in zip(shapes,m)]

            f(o); b.n+=1
            for x,s,w,i in zip(o,shapes,want,range(9)):
                if x is None: continue
                n=int(np.prod(s))
                if (x[n:]!=G).any(): b.bad.append((what,'wrote past an output',m)); return
                b.eq('%s outputs %s: output %d'%(what,m,i),x[:n].reshape(s),w,1e-12*(1+np.abs(w).max()))
    pts=np.array([(.3,-2,5.),(0,0,0)])
    for r in rs:
        R=poses.R(r).astype(float); R=np.ascontiguousarray(R)
        a=mrcal.R_from_r(r,get_gradients=True); run(lambda o: l.mrcal_R_from_r_full(D(o[0]),0,0,D(o[1]),0,0,0,D(r),0),((3,3),(3,3,3)),0,a,'mrcal_R_from_r')
        a=mrcal.r_from_R(R,get_gradients=True); run(lambda o: l.mrcal_r_from_R_full(D(o[0]),0,D(o[1]),0,0,0,D(R),0,0),((3,),(3,3,3)),0,a,'mrcal_r_from_R')
        for t in poses.TS[:2]:
            rt=np.concatenate((r,t)); Rt=np.ascontiguousarray(np.concatenate((R,t[None])))
            a=mrcal.rt_from_Rt(Rt,get_gradients=True); run(lambda o: l.mrcal_rt_from_Rt_full(D(o[0]),0,D(o[1]),0,0,0,D(Rt),0,0),((6,),(3,3,3)),0,a,'mrcal_rt_from_Rt')
            a=mrcal.Rt_from_rt(rt,get_gradients=True); run(lambda o: l.mrcal_Rt_from_rt_full(D(o[0]),0,0,D(o[1]),0,0,0,D(rt),0),((4,3),(3,3,3)),0,a,'mrcal_Rt_from_rt')
            v,g=mrcal.invert_rt(rt,get_gradients=True); run(lambda o: l.mrcal_invert_rt_full(D(o[0]),0,D(o[1]),0,0,D(o[2]),0,0,D(rt),0),((6,),(3,3),(3,3)),0,(v,g[3:,:3],g[3:,3:]),'mrcal_invert_rt')
            for x in pts:
                for inv in (False,True):
                    v,g,gx=mrcal.transform_point_rt(rt,x,get_gradients=True,inverted=inv)
                    run(lambda o: l.mrcal_transform_point_rt_full(D(o[0]),0,D(o[1]),0,0,D(o[2]),0,0,D(rt),0,D(x),0,C.c_bool(inv)),((3,),(3,6),(3,3)),0,(v,g,gx),'mrcal_transform_point_rt %s'%inv)
                    v,g,gx=mrcal.transform_point_Rt(Rt,x,get_gradients=True,inverted=inv)
                    run(lambda o: l.mrcal_transform_point_Rt_full(D(o[0]),0,D(o[1]),0,0,0,D(o[2]),0,0,D(Rt),0,0,D(x),0,C.c_bool(inv)),((3,),(3,4,3),(3,3)),0,(v,g,gx),'mrcal_transform_point_Rt %s'%inv)
                    v,g,gx=mrcal.rotate_point_r(r,x,get_gradients=True,inverted=inv)
                    run(lambda o: l.mrcal_rotate_point_r_full(D(o[0]),0,D(o[1]),0,0,D(o[2]),0,0,D(r),0,D(x),0,C.c_bool(inv)),((3,),(3,3),(3,3)),0,(v,g,gx),'mrcal_rotate_point_r %s'%inv)
                    v,g,gx=mrcal.rotate_point_R(R,x,get_gradients=True,inverted=inv)
                    run(lambda o: l.mrcal_rotate_point_R_full(D(o[0]),0,D(o[1]),0,0,0,D(o[2]),0,0,D(R),0,0,D(x),0,C.c_bool(inv)),((3,),(3,3,3),(3,3)),0,(v,g,gx),'mrcal_rotate_point_R %s'%inv)
        for r1 in rs[::1 if th else 5]:
            for i0,i1 in itertools.product((False,True),repeat=2):
                a=mrcal.compose_r(r,r1,get_gradients=True,inverted0=i0,inverted1=i1)
                if np.abs(a[1]).max()<1e3 and np.abs(a[2]).max()<1e3:
                    run(lambda o: l.mrcal_compose_r_full(D(o[0]),0,D(o[1]),0,0,D(o[2]),0,0,D(r),0,D(r1),0,C.c_bool(i0),C.c_bool(i1)),((3,),(3,3),(3,3)),0,a,'mrcal_compose_r %s'%((i0,i1),))
                    x0=np.concatenate((r,poses.TS[1])); x1=np.concatenate((r1,poses.TS[1][::-1]*.3))
                    v,g0,g1=mrcal.compose_rt(x0,x1,get_gradients=True,inverted0=i0,inverted1=i1)
                    run(lambda o: l.mrcal_compose_rt_full(D(o[0]),0,*sum(([D(z),0,0] for z in o[1:]),[]),D(x0),0,D(x1),0,C.c_bool(i0),C.c_bool(i1)),((6,),)+((3,3),)*6,0,(v,g0[:3,:3],g1[:3,:3],g0[3:,:3],g1[3:,:3],g0[3:,3:],g1[3:,3:]),'mrcal_compose_rt %s'%((i0,i1),))
            if len(b.bad)>8: return b.bad[:8],b.n
    return b.bad[:8],b.n
def main(c,bdir):
    import poses
    th=vf.TIER=='thorough'; N=len(poses.rotations())
    items=[('one',0),('c',th)]+[('pairs',(k,k+1)) for k in range(0,N,1 if th else 5)]
    def run(it): return dict(one=one,pairs=pairs,c=csubsets)[it[0]](it[1])
    n=0
    for it,r in zip(items,vf.pmap(run,items,chunk=1)):
        if r[0]=='ok':
            bad,k=r[1]; n+=int(k)
            for b in bad: c.violation('gradient:'+b[0].split(' ')[0],'%s'%(b,),dict(item=it,detail=[str(x) for x in b]))
        else: c.violation('case:'+r[0],'%s: %s'%(it,r[1]),dict(item=it))
    c.sample(dict(rotations=N,axes=len(poses.AXES),magnitudes=poses.MAGS))
    return dict(evaluations=n,distinct_nontrivial=n,rotations=N,exhaustive=True,rule='evaluation: one gradient of one operation on one combination of operands and inversion flags (Python), or one subset of outputs (C)')
if __name__=='__main__': vf.main(main,'P10','exploration')
