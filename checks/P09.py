#!/usr/bin/env python3
"""P09: group laws of the pose operations, over all pairs (and triples) from an alphabet of rotations
and translations that reaches every branch of the implementation, against an extended-precision
reference."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf,itertools
import numpy as np
LD=np.longdouble
class B:
    def __init__(s): s.bad=[]; s.n=0
    def eq(s,what,got,want,tol,ctx=None):
        got=np.asarray(got); want=np.asarray(want); s.n+=max(1,got.size//max(1,np.prod(got.shape[-2:]) if got.ndim>1 else 1)) if got.size else 0
        if got.shape!=want.shape: s.bad.append((what,'shape',got.shape,want.shape)); return
        tol=np.broadcast_to(tol,want.shape) if np.ndim(tol) else tol
        with np.errstate(invalid='ignore'): ok=np.abs(got-want)<=tol
        if not ok.all():
            i=np.unravel_index(np.argmin(ok),ok.shape)
            s.bad.append((what,'%d of %d wrong'%((~ok).sum(),ok.size),i,float(got[i]),float(want[i]),ctx(i) if ctx else None))
def transforms(th):
    import poses
    rs=poses.rotations() if th else poses.rotations(poses.AXES,poses.MAGS)
    return rs
def one_operand(_):
    import mrcal,poses
    b=B(); rs=poses.rotations(); N=len(rs)
    Rr=poses.R(rs); R=Rr.astype(float)
    at=lambda i: rs[i[0]].tolist()
    # accuracy that r_from_R() can have within rounding of half a turn
    half=np.abs(np.abs((np.sqrt((rs*rs).sum(-1))+np.pi)%(2*np.pi)-np.pi)-np.pi)
    tl=(1e-12+np.minimum(3e-7,2e-15/np.maximum(half,1e-12)))[:,None]
    b.eq('R_from_r',mrcal.R_from_r(rs),R,1e-14,at)
    r2=mrcal.r_from_R(R)
    b.eq('R_from_r(r_from_R)',poses.R(r2),Rr,tl[:,:,None]+1e-12,at)
    m=np.sqrt((r2*r2).sum(-1)); b.eq('r_from_R: at most half a turn',np.maximum(m-np.pi,0),0*m,1e-6,at)
    m0=np.sqrt((rs*rs).sum(-1)); sel=m0<np.pi-1e-6
    b.eq('r_from_R(R_from_r)',r2[sel],rs[sel],tl[sel],lambda i: rs[sel][i[0]].tolist())
    # tiny rotations keep their relative accuracy
    z=(m0>1e-150)&(m0<1e-3); b.eq('r_from_R, small, relative',(r2-rs)[z]/m0[z][:,None],0*rs[z],np.maximum(1e-12,1e-15/m0[z])[:,None],lambda i: rs[z][i[0]].tolist())
    b.eq('invert_R',mrcal.invert_R(R),np.swapaxes(R,-1,-2),0)
    q=mrcal.quat_from_R(R)
    b.eq('quaternion norm',(q*q).sum(-1),np.ones(N),1e-14)
    t=np.sqrt((rs*rs).sum(-1).astype(LD)); qr=np.concatenate((np.cos(t/2)[:,None],rs*(np.where(t>0,np.sin(t/2)/np.where(t>0,t,1),.5))[:,None]),-1)
    s=np.sign((qr*q).sum(-1))
    b.eq('quat_from_R',q*s[:,None],qr,1e-12,at)
    b.eq('R_from_quat',mrcal.R_from_quat(q),Rr,1e-13,at)
    b.eq('R_from_quat of the negative',mrcal.R_from_quat(-q),Rr,1e-13,at)
    for t in poses.TS:
        s=1+np.abs(t).max()
        rt=np.concatenate((rs,np.broadcast_to(t,rs.shape)),-1); Rt=poses.Rt(rt); Rtf=Rt.astype(float)
        b.eq('Rt_from_rt',mrcal.Rt_from_rt(rt),Rt,1e-14*s,at)
        x=mrcal.rt_from_Rt(Rtf); b.eq('rt_from_Rt',poses.Rt(x),Rt,tl[:,:,None]+1e-12,at); b.eq('rt_from_Rt = r_from_R',x[:,:3],r2,1e-14,at)
        qt=mrcal.qt_from_Rt(Rtf); b.eq('qt_from_Rt',qt,np.concatenate((q,rt[:,3:]),-1),1e-14,at)
        b.eq('Rt_from_qt',mrcal.Rt_from_qt(qt),Rt,1e-13*s,at)
        Ri=poses.inv_Rt(Rt)
        b.eq('invert_Rt',mrcal.invert_Rt(Rtf),Ri,1e-14*s*4,at)
        xi=mrcal.invert_rt(rt); b.eq('invert_rt',poses.Rt(xi),Ri,1e-10*s,at); b.eq('invert_rt rotation',xi[:,:3],-rs,0,at)
        I4=np.broadcast_to(np.concatenate((np.eye(3),np.zeros((1,3)))),Rt.shape)
        for f,nm in ((lambda a,c:mrcal.compose_Rt(a,c),'compose_Rt'),):
            b.eq('X inv(X)',f(Rtf,mrcal.invert_Rt(Rtf)),I4,1e-13*s*4,at); b.eq('inv(X) X',f(mrcal.invert_Rt(Rtf),Rtf),I4,1e-13*s*4,at)
        for a in (mrcal.compose_rt(rt,xi),mrcal.compose_rt(xi,rt)): b.eq('x inv(x), rt',poses.Rt(a),I4,1e-9*s,at)
        b.eq('invert twice',mrcal.invert_rt(xi),rt,1e-10*s,at)
        # points
        for x in np.array([(0,0,0),(1.,0,0),(-3.,2,.7),(1e5,-2e4,3e3)]):
            sx=s+np.abs(x).max()
            for inv in (False,True):
                want=poses.apply_Rt(Ri if inv else Rt,x)
                b.eq('transform_point_Rt %s'%inv,mrcal.transform_point_Rt(Rtf,x,inverted=inv),want,1e-14*sx*8,at)
                b.eq('transform_point_rt %s'%inv,mrcal.transform_point_rt(rt,x,inverted=inv),want,1e-10*sx,at)
                if not t.any():
                    b.eq('rotate_point_R %s'%inv,mrcal.rotate_point_R(R,x,inverted=inv),want,1e-14*sx*8,at)
                    b.eq('rotate_point_r %s'%inv,mrcal.rotate_point_r(rs,x,inverted=inv),want,1e-10*sx,at)
    a=np.array([(1.,2,3),(-4,0,7)]); c=np.array((.3,-5,2))
    for k in range(2): b.eq('skew_symmetric',mrcal.skew_symmetric(a[k])@c,np.cross(a[k],c),1e-14)
    b.eq('skew_symmetric broadcast',mrcal.skew_symmetric(a),np.array([mrcal.skew_symmetric(x) for x in a]),0)
    b.eq('identity_R',mrcal.identity_R(),np.eye(3),0); b.eq('identity_r',mrcal.identity_r(),np.zeros(3),0); b.eq('identity_rt',mrcal.identity_rt(),np.zeros(6),0)
    b.eq('identity_Rt',mrcal.identity_Rt(),np.concatenate((np.eye(3),np.zeros((1,3)))),0)
    o=np.full((3,3),7.); mrcal.identity_R(out=o); b.eq('identity_R(out)',o,np.eye(3),0)
    # a rotation that takes a vector to the z axis
    if hasattr(mrcal,'R_aligned_to_vector'):
        for v in np.concatenate((poses.AXES,poses.AXES*1e-3,poses.AXES*50,-poses.AXES)):
            R0=mrcal.R_aligned_to_vector(v); b.eq('R_aligned_to_vector',R0@(v/np.sqrt(v@v)),np.array((0,0,1.)),1e-13); b.eq('R_aligned_to_vector orthonormal',R0@R0.T,np.eye(3),1e-13); b.eq('R_aligned_to_vector det',np.linalg.det(R0),1.,1e-13)
    return b.bad[:8],b.n
def pairs(item):
    import mrcal,poses
    k0,k1,th=item
    b=B()
    rs=poses.rotations(); N=len(rs)
    other=rs if th else rs[::1]
    Rall=poses.R(other); t1=np.array([poses.TS[i%len(poses.TS)]*(1+.01*i) for i in range(len(other))])
    rt1=np.concatenate((other,t1),-1); Rt1=poses.Rt(rt1); Rt1f=Rt1.astype(float); Rt1i=poses.inv_Rt(Rt1)
    for k in range(k0,min(k1,N)):
        r0=rs[k]; t0=poses.TS[(k*3+1)%len(poses.TS)]
        rt0=np.concatenate((r0,t0)); Rt0=poses.Rt(rt0); Rt0f=Rt0.astype(float); Rt0i=poses.inv_Rt(Rt0)
        s=(2+np.abs(t0).max()+np.abs(t1).max(-1))[:,None]
        at=lambda i: (r0.tolist(),other[i[0]].tolist())
        for i0,i1 in itertools.product((False,True),repeat=2):
            want=poses.comp_Rt(Rt0i if i0 else Rt0,Rt1i if i1 else Rt1)
            r=mrcal.compose_r(r0,other,inverted0=i0,inverted1=i1)
            b.eq('compose_r %s'%((i0,i1),),poses.R(r),want[:,:3,:],3e-9,at)
            g=mrcal.compose_rt(rt0,rt1,inverted0=i0,inverted1=i1)
            b.eq('compose_rt rotation %s'%((i0,i1),),g[:,:3],r,1e-14,at)
            b.eq('compose_rt translation %s'%((i0,i1),),g[:,3:],want[:,3,:],1e-10*s,at)
            g=mrcal.compose_Rt(Rt0f,Rt1f,inverted0=i0,inverted1=i1)
            b.eq('compose_Rt %s'%((i0,i1),),g,want,(1e-14*8*s)[:,:,None],at)
            if len(b.bad)>8: return b.bad[:8],b.n
    return b.bad[:8],b.n
def nary(item):
    import mrcal,poses
    b=B(); k,th=item
    mags=(0,1e-9,3e-7,.3,2.,PI,PI+.5,6.) if th else (0,3e-7,1.,3.1415926,4.5)
    rs=poses.rotations(poses.AXES[[0,7,8,11]] ,mags)
    if k>=len(rs): return [],0
    T=poses.TS[1]
    rt=np.concatenate((rs,np.array([T*(i%3)+i*.1 for i in range(len(rs))])),-1); X=poses.Rt(rt); Xf=X.astype(float)
    a=rt[k]
    for i in range(len(rs)):
        bb=rt[i]; c=rt
        want=poses.comp_Rt(poses.comp_Rt(X[k],X[i]),X); tol=1e-8
        b.eq('compose_rt of 3',poses.Rt(mrcal.compose_rt(a,bb,c)),want,tol*20)
        l=mrcal.compose_rt(mrcal.compose_rt(a,bb),c); r=mrcal.compose_rt(a,mrcal.compose_rt(bb,c))
        b.eq('associativity rt, left',poses.Rt(l),want,tol*20); b.eq('associativity rt, right',poses.Rt(r),want,tol*20)
        b.eq('compose_r of 3',poses.R(mrcal.compose_r(a[:3],bb[:3],c[:,:3])),want[:,:3],tol)
        b.eq('compose_Rt of 3',mrcal.compose_Rt(Xf[k],Xf[i],Xf),want,1e-12)
        b.eq('compose_Rt of 4',mrcal.compose_Rt(Xf[k],Xf[i],Xf,Xf[0]),poses.comp_Rt(want,X[0]),1e-12)
        b.eq('compose_rt of 4',poses.Rt(mrcal.compose_rt(a,bb,c,rt[0])),poses.comp_Rt(want,X[0]),tol*20)
        b.eq('compose_r of 4',poses.R(mrcal.compose_r(a[:3],bb[:3],c[:,:3],rt[0,:3])),poses.comp_Rt(want,X[0])[:,:3],tol*20)
        p=np.array((.3,-2.,5.))
        b.eq('composition = applying in turn',mrcal.transform_point_rt(mrcal.compose_rt(a,bb,c),p),mrcal.transform_point_rt(a,mrcal.transform_point_rt(bb,mrcal.transform_point_rt(c,p))),1e-7)
    for f,x in ((mrcal.compose_r,rs),(mrcal.compose_rt,rt),(mrcal.compose_Rt,Xf)):
        for kw in (dict(inverted0=True),dict(inverted1=True)):
            try: f(x[0],x[1],x[2],**kw); b.bad.append((f.__name__,'accepted inverted with 3 operands'))
            except Exception: b.n+=1
    return b.bad[:8],b.n
PI=np.pi
def main(c,bdir):
    import poses
    th=vf.TIER=='thorough'
    N=len(poses.rotations())
    items=[('one',None)]+[('pairs',(k,k+4,th)) for k in range(0,N,4 if not th else 4)][::1 if th else 1]
    if not th: items=[('one',None)]+[('pairs',(k,k+1,th)) for k in range(0,N,3)]
    items+=[('nary',(k,th)) for k in range(40)]
    n=0
    def run(it): return dict(one=one_operand,pairs=pairs,nary=nary)[it[0]](it[1])
    for it,r in zip(items,vf.pmap(run,items,chunk=1)):
        if r[0]=='ok':
            bad,k=r[1]; n+=int(k)
            for b in bad: c.violation('pose:'+b[0].split(' ')[0],'%s'%(b,),dict(item=it,detail=[str(x) for x in b]))
        else: c.violation('case:'+r[0],'%s: %s'%(it,r[1]),dict(item=it))
    c.sample(dict(rotations=N,axes=len(poses.AXES),magnitudes=poses.MAGS))
    return dict(evaluations=n,distinct_nontrivial=n,rotations=N,pairs=N*N if th else N*((N+2)//3),exhaustive=True,
                rule='evaluation: one operation on one combination of operands from the alphabet, with one setting of the inversion flags')
if __name__=='__main__': vf.main(main,'P09','exploration')
