#!/usr/bin/env python3
"""P21: triangulation.

Enumerated: all methods x points x translations, rays exact, divergent, parallel, and inconsistent by a list of
perturbations, x lengths of the ray vectors, directly and batched, with and without gradients. Oracle: the true point;
for inconsistent rays the documented criterion of each method, found numerically in extended precision; finite differences."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf,itertools
import numpy as np
import ref
LD=np.longdouble
M=['geometric','lindstrom','leecivera_l1','leecivera_linf','leecivera_mid2','leecivera_wmid2']
T=[np.array(t,float) for t in ((1,0,0),(0,1,0),(-.3,0,0),(.1,-.2,.05),(0,0,1),(.2,.1,-.7),(1e-3,0,0),(50.,-20,3))]
ROT=[np.zeros(3),np.array((.2,-.3,.1)),np.array((0,0,np.pi/2))]
DIRS=[np.array(d,float) for d in ((0,0,1),(.3,0,1),(-.4,.5,1),(0,-.7,1),(2,1,1),(1.5,-.2,.01))]
WIDE=[np.array(d,float) for d in ((1,.2,0),(-.3,1,0),(.5,-1,-.5),(.2,.1,-1),(0,1,0),(0,0,-1))]
RANGE=[.2,.7,1.5,10.,300.]
EPS=[(a,b) for a in (0,1e-3,-3e-3) for b in (0,2e-3,-1e-3)]
LEN=[2.**-27,2.**-13,1.,3.,2.**13,2.**27]
nrm=lambda a: np.sqrt((a*a).sum(-1))
def isect(v0,v1,t):
    """true intersection of rays lying in one plane with t, or None"""
    n=np.cross(v0,v1); d=(n*n).sum()
    if d==0: return None
    k0=(np.cross(t,v1)*n).sum()/d; k1=(np.cross(t,v0)*n).sum()/d
    return (k0*v0,k0,k1)
def refm(m,v0,v1,t,R):
    """the reference: (point or zeros, margin: how far from a decision)"""
    v0,v1,t=[np.asarray(x,LD) for x in (v0,v1,t)]
    Z=np.zeros(3,LD)
    if m=='geometric':
        A=np.array([[v0@v0,-(v0@v1)],[-(v0@v1),v1@v1]],LD); det=A[0,0]*A[1,1]-A[0,1]**2
        if det==0: return Z,0
        b=np.array([t@v0,-(t@v1)],LD); k0=(A[1,1]*b[0]-A[0,1]*b[1])/det; k1=(A[0,0]*b[1]-A[0,1]*b[0])/det
        return ((k0*v0+t+k1*v1)/2 if k0>0 and k1>0 else Z),min(abs(k0)*nrm(v0),abs(k1)*nrm(v1))/nrm(t)
    if m in ('leecivera_mid2','leecivera_wmid2'):
        a,b=v0/nrm(v0),v1/nrm(v1); p=nrm(np.cross(a,b))
        if p==0: return Z,0
        l0=nrm(np.cross(b,t))/p; l1=nrm(np.cross(a,t))/p
        x=lambda s0,s1: ((t+s1*l1*b-s0*l0*a)**2).sum()
        o=[x(-1,1)-x(1,1),x(1,-1)-x(1,1),x(-1,-1)-x(1,1)]
        if not min(o)>0: return Z,min(abs(q) for q in o)/(t@t)
        if m=='leecivera_mid2': w0=w1=LD(.5)
        else: w0,w1=(1/l0)/(1/l0+1/l1),(1/l1)/(1/l0+1/l1)
        return w0*l0*a+w1*(t+l1*b),min(abs(q) for q in o)/(t@t)
    a,b=v0/nrm(v0),v1/nrm(v1)
    if m in ('leecivera_l1','leecivera_linf'):
        # the epipolar plane contains t; its angle phi about t
        e=t/nrm(t); ax=np.eye(3,dtype=LD)[np.argmin(np.abs(e))]; u=np.cross(e,ax); u/=nrm(u); w=np.cross(e,u)
        ang=lambda v,c,s: np.arcsin(np.clip(np.abs(v@(c*u+s*w)),0,1))
        ph=[np.arctan2(v@w,v@u)+LD(np.pi)/2 for v in (a,b)]   # plane normals containing each ray
        cost=lambda f: (lambda x,y: x+y if m.endswith('l1') else np.maximum(x,y))(ang(a,np.cos(f),np.sin(f)),ang(b,np.cos(f),np.sin(f)))
        if m.endswith('l1'): cand=ph
        else:
            # |a.n|=|b.n|: n perpendicular to a+b or a-b
            cand=[np.arctan2((a+s*b)@w,(a+s*b)@u)+LD(np.pi)/2 for s in (1,-1) if nrm(np.cross(a+s*b,e))>1e-15]
        cs=sorted((cost(f),i) for i,f in enumerate(cand))
        # a dense scan must not beat it
        best=cs[0][0]; F=np.linspace(0,np.pi,181).astype(LD)
        sc=min(cost(f) for f in F)
        assert sc>=best-1e-12,(m,sc,best)
        f=cand[cs[0][1]]; n=np.cos(f)*u+np.sin(f)*w
        a2,b2=a-n*(a@n),b-n*(b@n); amb=(cs[1][0]-cs[0][0]) if len(cs)>1 and abs(np.sin(cand[0]-cand[1]))>1e-9 else 1
        r=isect(a2,b2,t)
        if r is None: return Z,0
        p,k0,k1=r
        return (p if k0>0 and k1>0 else Z),min(abs(k0)/nrm(t),abs(k1)/nrm(t),amb*1e3)
def lind_cost(p,v0,v1,R,t):
    """squared distance in the normalized images, p in camera-0 coordinates"""
    q=R.T@(p-t); return ((p[:2]/p[2]-v0[:2]/v0[2])**2).sum()+((q[:2]/q[2]-v1[:2]/v1[2])**2).sum()
def callm(m,v0,v1,t,R,grad=False,out=None,variant=0):
    """v0,v1 in camera-0 coordinates"""
    import mrcal,numpysane as nps
    f=getattr(mrcal,'triangulate_'+m); Rt=np.concatenate((R,t[...,None,:]),-2)
    v1l=(np.swapaxes(R,-1,-2)@v1[...,None])[...,0]
    if m=='lindstrom':
        if variant==0 or grad: return f(v0,np.ascontiguousarray(v1l),Rt,get_gradients=grad)
        return f(v0,v1,Rt,v_are_local=False)
    if variant==0 or grad: return f(v0,v1,t,get_gradients=grad)
    if variant==1: return f(v0,np.ascontiguousarray(v1l),Rt01=Rt,v_are_local=True)
    return f(v0,v1,Rt01=Rt)
def run(it):
    import mrcal
    bad=[]; n=0; dec=0
    m,it_,ir=it; t=T[it_]; R=np.asarray(ref.R_from_r(ROT[ir]),float); lind=m=='lindstrom'
    def rep(w,e): bad.append('%s t01=%s rot %d %s: %s'%(m,t.tolist(),ir,w,e))
    def one(v0,v1,w,want,tol,margin=1.):
        """all the ways to call it"""
        nonlocal n
        r=callm(m,v0,v1,t,R); n+=1
        if r.shape!=(3,): rep(w,'shape'); return r
        if margin>1e-6:
            if not want.any():
                if r.any(): rep(w,'gave %s, expected zero'%r)
            elif not nrm(r-want)<=tol*nrm(want): rep(w,'gave %s, expected %s'%(r,want))
        return r
    def ways(v0,v1,w,r):
        nonlocal n
        sc=nrm(r)+1e-300
        for k0,k1 in itertools.product(LEN,LEN):
            if k0==k1==1: continue
            n+=1; x=callm(m,v0*k0,v1*k1,t,R)
            if not (nrm(x-r)<=1e-7*sc): rep(w,'ray lengths x%g, x%g: gave %s, expected %s'%(k0,k1,x,r)); break
        for var in (1,2):
            n+=1; x=callm(m,v0,v1,t,R,variant=var)
            if not nrm(x-r)<=1e-7*sc: rep(w,'variant %d: %s, expected %s'%(var,x,r))
        n+=1; g=callm(m,v0,v1,t,R,grad=True)
        if g[0].tobytes()!=r.tobytes(): rep(w,'with gradients: %s, without: %s'%(g[0],r))
        return g
    def grads(v0,v1,w,r,g):
        """finite differences"""
        nonlocal n
        if not r.any():
            if any(x.any() for x in g[1:]): rep(w,'the point is zero, its gradient is %s'%[x.tolist() for x in g[1:]])
            return
        v1l=R.T@v1 if lind else v1
        args=[v0,v1l,np.concatenate((R,t[None])) if lind else t]
        f=getattr(mrcal,'triangulate_'+m)
        for k in range(3):
            a=np.asarray(args[k],float); G=np.asarray(g[1+k]).reshape(3,-1)
            h=1e-5*np.sqrt((a[-1] if a.ndim==2 else a)@(a[-1] if a.ndim==2 else a))
            fl=a.ravel(); D=np.zeros((3,len(fl))); D2=D.copy()
            for i in range(len(fl)):
                hh=h if not (a.ndim==2 and i<9) else 1e-5
                for H,DD in ((hh,D),(hh/2,D2)):
                    v=[]
                    for s in (1,-1):
                        x=fl.copy(); x[i]+=s*H; aa=list(args); aa[k]=x.reshape(a.shape); v.append(f(*aa))
                    DD[:,i]=(v[0]-v[1])/2/H
                n+=1
            S=(4*D2-D)/3; err=np.abs(D-D2).max(); sc=np.abs(S).max()
            if err>1e-2*sc: continue  # at a kink
            if not np.abs(G-S).max()<=max(10*err,1e-6*sc,1e-9): rep(w,'gradient %d: %s, finite differences: %s'%(k,G.tolist(),S.tolist()))
    # 1: exact rays
    for wide,dirs in ((0,DIRS),(1,WIDE)):
        for d,rg in itertools.product(dirs,RANGE):
            p=d/nrm(d)*rg*max(nrm(t),.1); v0=p/nrm(p); v1=p-t; v1=v1/nrm(v1)
            if lind and (p[2]<=.02*nrm(p) or (R.T@v1)[2]<=.02): continue
            par=nrm(np.cross(v0,v1))
            if par<1e-4: continue
            w='exact point %s'%p.tolist(); dec+=1
            r=one(v0,v1,w,p,1e-13/par**2+1e-9)
            g=ways(v0,v1,w,r)
            if r.any(): grads(v0,v1,w,r,g)
            # the rays reversed: behind one or both cameras
            for s0,s1 in ((-1,1),(1,-1),(-1,-1)):
                x0,x1=v0*s0,v1*s1; ww=w+' rays x(%d,%d)'%(s0,s1); dec+=1
                r=one(x0,x1,ww,np.zeros(3),0); g=ways(x0,x1,ww,r); grads(x0,x1,ww,r,g)
            # parallel, both ways, also along the baseline
            for x1 in (v0,-v0):
                dec+=1; ww='parallel %s %s'%(v0,x1)
                r=one(v0,x1,ww,np.zeros(3),0); n+=1
                g=callm(m,v0,x1,t,R,grad=True); grads(v0,x1,ww,g[0],g)
                if g[0].any(): rep(ww,'gave %s with gradients'%g[0])
                for k0,k1 in itertools.product(LEN,LEN):
                    n+=1
                    x=callm(m,v0*k0,x1*k1,t,R)
                    if x.any() and (3. not in (k0,k1) or nrm(x)<1e8*nrm(t)): rep(ww,'lengths x%g,x%g: gave %s'%(k0,k1,x)); break
    # 2: inconsistent rays
    for d,rg,(e0,e1) in itertools.product(DIRS[:5],RANGE[2:4],EPS):
        p=d/nrm(d)*rg*max(nrm(t),.1); v0=p/nrm(p); v1=(p-t)/nrm(p-t)
        nn=np.cross(v0,t)
        if nrm(nn)<.02*nrm(t): continue
        nn/=nrm(nn); v1=v1+nn*e0+np.cross(nn,v1)*e1*.1; v1/=nrm(v1); v0=v0+nn*e1; v0/=nrm(v0)
        if lind and (v0[2]<=.05 or (R.T@v1)[2]<=.05): continue
        w='inconsistent (%g,%g) point %s'%(e0,e1,p.tolist())
        if not lind:
            want,mg=refm(m,v0,v1,t,R); want=np.asarray(want,float); dec+=mg>1e-6
            par=nrm(np.cross(v0,v1)); r=one(v0,v1,w,want,1e-12/par**2+1e-9,mg)
        else:
            v1l=R.T@v1; r=callm(m,v0,v1,t,R); n+=1; dec+=1
            # the optimum, by Gauss-Newton from the midpoint, in the images
            x=np.asarray(refm('geometric',v0,v1,t,R)[0],float)
            if not x.any(): continue
            def res(x):
                q=R.T@(x-t); J=np.zeros((4,3)); J[0]=(1/x[2],0,-x[0]/x[2]**2); J[1]=(0,1/x[2],-x[1]/x[2]**2)
                K=np.array(((1/q[2],0,-q[0]/q[2]**2),(0,1/q[2],-q[1]/q[2]**2)))@R.T; J[2:]=K
                return np.concatenate((x[:2]/x[2]-v0[:2]/v0[2],q[:2]/q[2]-v1l[:2]/v1l[2])),J
            for k in range(100):
                f,J=res(x); s=-np.linalg.lstsq(J,f,rcond=None)[0]
                while ((res(x+s)[0]**2).sum()>(f@f)) and nrm(s)>1e-14*nrm(x): s=s/2
                x=x+s
                if nrm(s)<1e-13*nrm(x): break
            f,J=res(x)
            if (R.T@(x-t))[2]<=0 or x[2]<=0 or nrm(x)>1e5*nrm(t): continue
            if not r.any(): rep(w,'gave zero, the optimum is %s'%x); continue
            c=lind_cost(r,v0,v1l,R,t); co=f@f
            if not c<=co*(1+1e-7+co)+1e-18: rep(w,'cost %.9g at %s, but %.9g at %s'%(c,r,co,x))
        g=ways(v0,v1,w,r)
        if r.any() and (e0 or e1): grads(v0,v1,w,r,g)
    return bad[:40],n,int(dec)
def batch(it):
    """batched and broadcasted calls give the same as one by one; outputs given; mrcal.triangulate()"""
    import mrcal
    m,=it; bad=[]; n=0; lind=m=='lindstrom'
    R=np.asarray([ref.R_from_r(r) for r in ROT],float); t=np.array(T[:5])
    p=np.array([d*r for d in DIRS[:4] for r in (2.,9.)]); v0=p+0.; 
    f=getattr(mrcal,'triangulate_'+m)
    # axes: t(5) x rot(3) x points(8)
    V1=p[None,None]-t[:,None,None]+.001; V1=np.broadcast_to(V1,(5,3,8,3)); V1l=np.einsum('jki,...jpk->...jpi',R,V1)
    Rt=np.zeros((5,3,1,4,3)); Rt[...,:3,:]=R[None,:,None]; Rt[...,3,:]=t[:,None,None]
    one=np.zeros((5,3,8,3)); og=None
    calls={}
    if lind:
        calls['local']=(lambda a,b,c,d,**k: f(a,np.ascontiguousarray(c),d,**k)); calls['common']=lambda a,b,c,d,**k: f(a,b,d,v_are_local=False,**k); calls['grad']=lambda a,b,c,d,**k: f(a,np.ascontiguousarray(c),d,get_gradients=True,**k)
    else:
        calls['plain']=lambda a,b,c,d,**k: f(a,b,np.ascontiguousarray(d[...,3,:]),**k); calls['Rt01']=lambda a,b,c,d,**k: f(a,b,Rt01=d,**k); calls['local']=lambda a,b,c,d,**k: f(a,np.ascontiguousarray(c),Rt01=d,v_are_local=True,**k)
        calls['grad']=lambda a,b,c,d,**k: f(a,b,np.ascontiguousarray(d[...,3,:]),get_gradients=True,**k)
    for name,c in calls.items():
        ng=4 if name=='grad' else 1
        tup=lambda x: x if ng>1 else (x,)
        ones={}
        for i,j,k in itertools.product(range(5),range(3),range(8)):
            n+=1; ones[i,j,k]=tup(c(v0[k],np.ascontiguousarray(V1[i,j,k]),V1l[i,j,k],Rt[i,j,0]))
        def comp(r,what,ix):
            for g in range(ng):
                for a in itertools.product(*[range(s) for s in r[g].shape[:len(ix)]]):
                    x=[b if isinstance(s,slice) else s for s,b in zip(ix,[0]*3)]
                    pass
        def whole(what,r,I,J,K):
            r=tup(r)
            for g in range(ng):
                w=np.array([[[ones[i,j,k][g] for k in K] for j in J] for i in I])
                w=w.reshape(r[g].shape) if w.size==r[g].size else w
                if r[g].shape!=w.shape or not np.array_equal(r[g],w): bad.append('%s %s %s output %d: batched call differs, shapes %s %s'%(m,name,what,g,r[g].shape,w.shape)); return
        a5,a3,a8=range(5),range(3),range(8)
        n+=3
        whole('full',c(v0,np.ascontiguousarray(V1),V1l,Rt),a5,a3,a8)
        whole('points',c(v0,np.ascontiguousarray(V1[2,1]),V1l[2,1],Rt[2,1,0]),[2],[1],a8)
        whole('one point',c(v0[3],np.ascontiguousarray(V1[:,:,3]),V1l[:,:,3],Rt[:,:,0]),a5,a3,[3])
        # into given outputs, also noncontiguous
        sh=[(3,)]+([(3,3)]*2+[(3,4,3)] if lind else [(3,3)]*3) if ng>1 else [(3,)]
        for lay in range(3):
            n+=1
            outs=[]; backs=[]
            for s in sh:
                s=(5,3,8)+s
                if lay==0: b=np.full(s,7.)
                elif lay==1: b=np.full((5,2*3,8+1)+s[3:],7.)
                else: b=np.full((8,5,3)+s[3:],7.)
                o=b if lay==0 else (b[:,1::2,:8] if lay==1 else np.moveaxis(b,0,2)); outs.append(o); backs.append(b)
            r=c(v0,np.ascontiguousarray(V1),V1l,Rt,out=tuple(outs) if ng>1 else outs[0])
            whole('into outputs',tuple(outs) if ng>1 else outs[0],a5,a3,a8)
            if lay==1 and any((b[:,::2]!=7).any() or (b[:,:,8:]!=7).any() for b in backs): bad.append('%s %s wrote outside the output'%(m,name))
    # mrcal.triangulate(): pixels and models
    I=('LENSMODEL_OPENCV4',np.array([500.,510,320,240,.01,-.02,.001,-.001])); I1=('LENSMODEL_PINHOLE',np.array([400.,410,300,200]))
    fr=np.array((.3,-.7,1.1,5,6,7.))
    for rt in ((0,0,0,-1.,0,0),(.1,-.05,.2,.1,-1.,.2)):
        m0=mrcal.cameramodel(intrinsics=I,imagersize=(640,480),rt_cam_ref=fr); m1=mrcal.cameramodel(intrinsics=I1,imagersize=(600,400),rt_cam_ref=mrcal.compose_rt(np.array(rt),fr))
        P=np.array([(x,y,z) for x in (-1.,.2,1.) for y in (-.5,.3) for z in (3.,8.)]); q=np.stack((mrcal.project(P,*I),mrcal.project(mrcal.transform_point_rt(np.array(rt),P),*I1)),-2)
        for qq in (q,q[0],q.reshape(3,4,2,2)):
            n+=1; r=mrcal.triangulate(qq,(m0,m1),method=f); w=P if qq is q else (P[0] if qq.ndim==2 else P.reshape(3,4,3))
            if r.shape!=w.shape or np.abs(r-w).max()>1e-6: bad.append('triangulate(method=%s) %s'%(m,np.abs(r-w).max() if r.shape==w.shape else r.shape))
        n+=1; r=mrcal.triangulate(q[:,::-1],(m1,m0),method=f); w=mrcal.transform_point_rt(np.array(rt),P)
        if np.abs(r-w).max()>1e-6: bad.append('triangulate(method=%s) swapped models'%m)
        n+=1; mm=np.array(((m0,m1),(m1,m0)),dtype=object); r=mrcal.triangulate(np.stack((q[:2],q[:2,::-1]),1),mm,method=f)
        if r.shape!=(2,2,3) or np.abs(r[:,0]-P[:2]).max()>1e-6 or np.abs(r[:,1]-w[:2]).max()>1e-6: bad.append('triangulate(method=%s) broadcasted models'%m)
    # arguments
    for what,g in (('neither',lambda: f(v0[0],v0[1])),)+(() if lind else (('both',lambda: f(v0[0],v0[1],t[0],Rt01=Rt[0,0,0])),('local without Rt01',lambda: f(v0[0],v0[1],t[0],v_are_local=True)),('gradients with local',lambda: f(v0[0],v0[1],Rt01=Rt[0,0,0],v_are_local=True,get_gradients=True)),('gradients with Rt01',lambda: f(v0[0],v0[1],Rt01=Rt[0,0,0],get_gradients=True)))):
        n+=1
        try: g(); bad.append('%s: %s accepted'%(m,what))
        except Exception: pass
    return bad,n,n
def main(c,b):
    th=vf.TIER=='thorough'
    items=[('batch',(m,)) for m in M]+[('run',(m,i,r)) for m in M for i in range(len(T)) for r in (range(3) if th else ([(i+1)%3] if m!='lindstrom' else range(3)))]
    n=dec=0
    for it,r in zip(items,vf.pmap(go,items,chunk=1)):
        if r[0]!='ok': c.violation('crash','%s: %s'%(str(it)[:100],str(r[1])[-600:]),dict(item=str(it))); continue
        bad,k,d=r[1]; n+=k; dec+=d
        for x in bad: c.violation(it[0]+' '+it[1][0],x,dict(item=str(it),got=x))
    c.sample(dict(methods=M,translations=[t.tolist() for t in T],directions=[d.tolist() for d in DIRS+WIDE],lengths=LEN,inconsistencies=EPS))
    return dict(evaluations=n,distinct_nontrivial=dec,exhaustive=True,rule='evaluation: one call, over every method, translation, rotation, point, perturbation and length of the lists; nontrivial: one pair of rays whose expected result is decided by the reference')
def go(it): return dict(batch=batch,run=run)[it[0]](it[1])
if __name__=='__main__': vf.main(main,'P21','exploration')
