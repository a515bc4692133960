"""Independent reference definitions: written from the documentation (lens models, poses, the cost
function), vectorized numpy, and holomorphic, so that f(x + i h e)/h gives exact derivatives."""
import numpy as np, re

pi=np.pi
# ---------------------------------------------------------------- complex-safe elementary functions
def rdot(a,b): return (a*b).sum(-1)
def norm(a): return np.sqrt((a*a).sum(-1))
def atan2(y,x):
    """holomorphic continuation of atan2 around the real point"""
    if not (np.iscomplexobj(y) or np.iscomplexobj(x)): return np.arctan2(y,x)
    y=np.asarray(y,complex); x=np.asarray(x,complex)
    r=np.arctan2(y.real,x.real)
    d=(x.real*y.imag-y.real*x.imag)/(x.real**2+y.real**2)
    return r+1j*d
def asin(x):
    if not np.iscomplexobj(x): return np.arcsin(x)
    return np.arcsin(x.real)+1j*x.imag/np.sqrt(1-x.real**2)
def cat(*a):
    return np.stack(np.broadcast_arrays(*a),-1)

# ---------------------------------------------------------------- poses
def skew(v):
    z=np.zeros_like(v[...,0])
    return np.stack((np.stack((z,-v[...,2],v[...,1]),-1),
                     np.stack((v[...,2],z,-v[...,0]),-1),
                     np.stack((-v[...,1],v[...,0],z),-1)),-2)
def _sinc(th2):
    """sin(th)/th and (1-cos(th))/th^2 as functions of th^2; holomorphic"""
    th2=np.asarray(th2)
    small=np.abs(th2)<1e-3
    t=np.where(small,1.,th2)
    th=np.sqrt(t+0j) if np.iscomplexobj(t) else np.sqrt(t)
    A=np.sin(th)/th; B=2*np.sin(th/2)**2/t
    x=th2
    As=1-x/6*(1-x/20*(1-x/42*(1-x/72))); Bs=(1-x/12*(1-x/30*(1-x/56*(1-x/90))))/2
    return np.where(small,As,A),np.where(small,Bs,B)
def R_from_r(r):
    A,B=_sinc(rdot(r,r))
    K=skew(r)
    return np.eye(3)+A[...,None,None]*K+B[...,None,None]*(K@K)
def rotate(r,p):
    A,B=_sinc(rdot(r,r))
    c=np.cross(r,p)
    return p+A[...,None]*c+B[...,None]*np.cross(r,c)
def transform(rt,p): return rotate(rt[...,:3],p)+rt[...,3:]
def r_from_R(R):
    """Real only; accurate everywhere in [0,pi]. At pi: either sign"""
    R=np.asarray(R,float); out=np.zeros(R.shape[:-1])
    for i in np.ndindex(*R.shape[:-2]):
        q=q_from_R(R[i]); out[i]=r_from_q(q)
    return out
def q_from_R(R):
    K=np.array(((R[0,0]+R[1,1]+R[2,2],R[2,1]-R[1,2],R[0,2]-R[2,0],R[1,0]-R[0,1]),
                (0,R[0,0]-R[1,1]-R[2,2],R[0,1]+R[1,0],R[0,2]+R[2,0]),
                (0,0,R[1,1]-R[0,0]-R[2,2],R[1,2]+R[2,1]),
                (0,0,0,R[2,2]-R[0,0]-R[1,1])))
    K=K+np.triu(K,1).T
    w,v=np.linalg.eigh(K); q=v[:,-1]
    return q if q[0]>=0 else -q
def q_from_r(r):
    th=norm(r); A,_=_sinc(th*th/4)
    return np.concatenate((np.cos(th/2)[...,None],r*A[...,None]/2),-1)
def r_from_q(q):
    q=np.asarray(q,float)
    s=np.sqrt((q[...,1:]**2).sum(-1)); c=q[...,0]
    th=2*np.arctan2(s,c)
    k=np.where(s<1e-12,2./np.where(c==0,1,c),th/np.where(s==0,1,s))
    return q[...,1:]*k[...,None]
def qmul(a,b):
    w=a[...,0]*b[...,0]-rdot(a[...,1:],b[...,1:])
    v=a[...,:1]*b[...,1:]+b[...,:1]*a[...,1:]+np.cross(a[...,1:],b[...,1:])
    return np.concatenate((w[...,None],v),-1)
def R_from_q(q):
    w,x,y,z=[q[...,i] for i in range(4)]
    return np.stack((np.stack((1-2*(y*y+z*z),2*(x*y-w*z),2*(x*z+w*y)),-1),
                     np.stack((2*(x*y+w*z),1-2*(x*x+z*z),2*(y*z-w*x)),-1),
                     np.stack((2*(x*z-w*y),2*(y*z+w*x),1-2*(x*x+y*y)),-1)),-2)
def rt_invert(rt): return np.concatenate((-rt[...,:3],-rotate(-rt[...,:3],rt[...,3:])),-1)
def Rt(rt): return np.concatenate((R_from_r(rt[...,:3]),rt[...,None,3:]),-2)
def same_rotation(ra,rb,tol=1e-9):
    return np.abs(R_from_r(np.asarray(ra))-R_from_r(np.asarray(rb))).max()<tol

# ---------------------------------------------------------------- lens models
NP={'LENSMODEL_PINHOLE':4,'LENSMODEL_STEREOGRAPHIC':4,'LENSMODEL_LONLAT':4,'LENSMODEL_LATLON':4,
    'LENSMODEL_OPENCV4':8,'LENSMODEL_OPENCV5':9,'LENSMODEL_OPENCV8':12,'LENSMODEL_OPENCV12':16,
    'LENSMODEL_CAHVOR':9}
def splined(model):
    m=re.fullmatch(r'LENSMODEL_SPLINED_STEREOGRAPHIC_order=(\d+)_Nx=(\d+)_Ny=(\d+)_fov_x_deg=(\d+)',model)
    return tuple(int(x) for x in m.groups()) if m else None
def cahvore(model):
    m=re.fullmatch(r'LENSMODEL_CAHVORE_linearity=(.*)',model)
    return float(m.group(1)) if m else None
def nparams(model):
    if model in NP: return NP[model]
    s=splined(model)
    if s: return 4+2*s[1]*s[2]
    if cahvore(model) is not None: return 12
    raise ValueError(model)
def seg_per_u(cfg):
    o,Nx,Ny,fov=cfg
    ue=2*np.tan(np.radians(fov/2.)/2)
    return (Nx-1-(2 if o==3 else 1))/(2*ue)
def _bspl(order,t):
    """uniform B-spline basis weights. cubic: t in [0,1] from the knot on the left (knots -1..2);
    quadratic: t in [-.5,.5] from the nearest knot (knots -1..1)"""
    if order==3:
        return ((1-t)**3/6,(3*t**3-6*t**2+4)/6,(-3*t**3+3*t**2+3*t+1)/6,t**3/6)
    return ((1-2*t)**2/8,(3-4*t*t)/4,(1+2*t)**2/8)
def spline_base(cfg,ux,uy):
    o,Nx,Ny,_=cfg; s=seg_per_u(cfg)
    ix=ux*s+(Nx-1)/2.; iy=uy*s+(Ny-1)/2.
    fl=(lambda x: np.trunc(np.real(x))) if o==3 else (lambda x: np.trunc(np.real(x)+.5))
    hi=3 if o==3 else 2
    ix0=np.clip(fl(ix),1,Nx-hi).astype(int); iy0=np.clip(fl(iy),1,Ny-hi).astype(int)
    return ix,iy,ix0,iy0
def project_u(model,intr,p):
    """normalized-core projection: q=f*u+c"""
    x,y,z=p[...,0],p[...,1],p[...,2]
    k=intr[...,4:]
    if model=='LENSMODEL_PINHOLE': return cat(x/z,y/z)
    if model=='LENSMODEL_STEREOGRAPHIC':
        m=norm(p); return cat(2*x/(m+z),2*y/(m+z))
    if model=='LENSMODEL_LONLAT': return cat(atan2(x,z),asin(y/norm(p)))
    if model=='LENSMODEL_LATLON': return cat(asin(x/norm(p)),atan2(y,z))
    if model.startswith('LENSMODEL_OPENCV'):
        n=int(model[len('LENSMODEL_OPENCV'):])
        K=[k[...,i] if i<n else 0. for i in range(12)]
        X,Y=x/z,y/z; r2=X*X+Y*Y
        R=(1+r2*(K[0]+r2*(K[1]+r2*K[4])))/(1+r2*(K[5]+r2*(K[6]+r2*K[7])))
        return cat(X*R+2*K[2]*X*Y+K[3]*(r2+2*X*X)+K[8]*r2+K[9]*r2*r2,
                   Y*R+2*K[3]*X*Y+K[2]*(r2+2*Y*Y)+K[10]*r2+K[11]*r2*r2)
    if model=='LENSMODEL_CAHVOR':
        al,be,r0,r1,r2=[k[...,i] for i in range(5)]
        o=cat(np.sin(al)*np.cos(be),np.sin(be),np.cos(al)*np.cos(be))
        om=rdot(p,o); lam=p-om[...,None]*o
        tau=rdot(lam,lam)/(om*om)
        mu=r0+r1*tau+r2*tau*tau
        pd=p+mu[...,None]*lam
        return cat(pd[...,0]/pd[...,2],pd[...,1]/pd[...,2])
    lin=cahvore(model)
    if lin is not None:
        al,be,r0,r1,r2,e0,e1,e2=[k[...,i] for i in range(8)]
        o=cat(np.sin(al)*np.cos(be),np.sin(be),np.cos(al)*np.cos(be))
        ze=rdot(p,o); ll=p-ze[...,None]*o; l=norm(ll)
        th=atan2(l,ze)
        for _ in range(60):
            # (zeta + (theta-sin)/... ) the CAHVORE entrance-pupil equation:
            # zeta sin(th) - l cos(th) - (th - sin th) e(th) = 0
            t2=th*th; e=e0+e1*t2+e2*t2*t2; de=2*e1*th+4*e2*th*t2
            f=ze*np.sin(th)-l*np.cos(th)-(th-np.sin(th))*e
            df=ze*np.cos(th)+l*np.sin(th)-(1-np.cos(th))*e-(th-np.sin(th))*de
            th=th-f/df
        if   lin<-1e-15: chi=np.sin(lin*th)/lin
        elif lin>1e-15:  chi=np.tan(lin*th)/lin
        else: chi=th
        c2=chi*chi; mu=r0+r1*c2+r2*c2*c2
        small=np.real(th)<=1e-8
        pd=o*(l/np.where(small,1,chi))[...,None]+ll*(1+mu)[...,None]
        pd=np.where(small[...,None],p,pd)
        return cat(pd[...,0]/pd[...,2],pd[...,1]/pd[...,2])
    cfg=splined(model)
    if cfg:
        o,Nx,Ny,_=cfg
        m=norm(p); ux,uy=2*x/(m+z),2*y/(m+z)
        ix,iy,ix0,iy0=spline_base(cfg,ux,uy)
        bx=_bspl(o,ix-ix0); by=_bspl(o,iy-iy0)
        g=k.reshape(k.shape[:-1]+(Ny,Nx,2))
        shp=np.broadcast_shapes(ux.shape,k.shape[:-1])
        dx=np.zeros(shp,np.result_type(ux,k)); dy=dx.copy()
        ix0=np.broadcast_to(ix0,shp); iy0=np.broadcast_to(iy0,shp)
        gb=np.broadcast_to(g,shp+g.shape[-3:])
        idx=np.indices(shp) if shp else ()
        for j in range(o+1):
            for i in range(o+1):
                c=gb[tuple(idx)+(iy0-1+j,ix0-1+i)]
                w=bx[i]*by[j]
                dx=dx+w*c[...,0]; dy=dy+w*c[...,1]
        return cat(ux+dx,uy+dy)
    raise ValueError(model)
def project(model,intr,p):
    u=project_u(model,intr,p)
    return u*intr[...,0:2]+intr[...,2:4]

def cgrad(f,x,h=1e-30):
    """jacobian of f (array->array) at real x by the complex step: exact to rounding"""
    x=np.asarray(x,float); cols=[]
    for i in np.ndindex(*x.shape):
        xc=x.astype(complex); xc[i]+=1j*h
        cols.append(np.imag(np.asarray(f(xc)))/h)
    f0=cols[0]
    return np.stack(cols,-1).reshape(f0.shape+x.shape)

# ---------------------------------------------------------------- the optimization problem
D2R=pi/180.
SC=dict(f=500.,c=20.,dist=1.,rcam=.1*D2R,tcam=1.,rframe=15.*D2R,tframe=1.,point=1.,warp=.01)
class Layout:
    """State and measurement layout of an optimization problem, from the documentation"""
    def __init__(s,model,Nci,Nce,Nf,Np,Npf,Nob,W,H,Nop,trisets,sel):
        s.__dict__.update(model=model,Nci=Nci,Nce=Nce,Nf=Nf,Np=Np,Npf=Npf,Nob=Nob,W=W,H=H,Nop=Nop,trisets=trisets,sel=sel)
        n=nparams(model)
        s.nd=n-4
        s.ni=(4 if sel['core'] else 0)+(s.nd if sel['dist'] else 0)
        b=[]       # (kind,item,length) in order
        for i in range(Nci):
            if s.ni: b.append(('intrinsics',i,s.ni))
        if sel['ext']: b+=[('extrinsics',i,6) for i in range(Nce)]
        if sel['frames']:
            b+=[('frames',i,6) for i in range(Nf)]
            b+=[('points',i,3) for i in range(Np-Npf)]
        if sel['warp'] and Nob>0: b.append(('warp',0,2))
        s.sblocks={}; i=0
        for k,j,l in b: s.sblocks[k,j]=(i,l); i+=l
        s.Nstate=i
        m=[('board',i,2*W*H) for i in range(Nob)]+[('point',i,2) for i in range(Nop)]
        m+=[('tri',i,n*(n-1)//2) for i,n in enumerate(trisets)]
        nr=0
        if sel['reg']: nr+=Nci*((s.nd if sel['dist'] else 0)+(2 if sel['core'] else 0))
        if sel['unity'] and sel['ext'] and Nce>0: nr+=1
        if nr: m.append(('reg',0,nr))
        s.mblocks={}; i=0
        for k,j,l in m: s.mblocks[k,j]=(i,l); i+=l
        s.Nmeas=i
    def counts(s,kind,blocks): return sum(l for (k,j),(i,l) in blocks.items() if k==kind)
    def scale(s):
        """the per-element scale of the state vector"""
        out=np.zeros(s.Nstate)
        for (k,j),(i,l) in s.sblocks.items():
            if k=='intrinsics':
                v=([SC['f'],SC['f'],SC['c'],SC['c']] if s.sel['core'] else [])+([SC['dist']]*s.nd if s.sel['dist'] else [])
            elif k=='extrinsics': v=[SC['rcam']]*3+[SC['tcam']]*3
            elif k=='frames': v=[SC['rframe']]*3+[SC['tframe']]*3
            elif k=='points': v=[SC['point']]*3
            else: v=[SC['warp']]*2
            out[i:i+l]=v
        return out
    def unpack(s,b,intr,ext,frames,points,warp):
        """values of all the variables at full-scale state vector b"""
        dt=np.result_type(b,float)
        intr,ext,frames,points=[np.array(x,dt) for x in (intr,ext,frames,points)]
        warp=None if warp is None else np.array(warp,dt)
        for (k,j),(i,l) in s.sblocks.items():
            v=b[i:i+l]
            if k=='intrinsics':
                o=0
                if s.sel['core']: intr[j,:4]=v[:4]; o=4
                if s.sel['dist']: intr[j,4:]=v[o:]
            elif k=='extrinsics': ext[j]=v
            elif k=='frames': frames[j]=v
            elif k=='points': points[j]=v
            else: warp=v
        return intr,ext,frames,points,warp
    def pack(s,intr,ext,frames,points,warp):
        b=np.zeros(s.Nstate)
        for (k,j),(i,l) in s.sblocks.items():
            if k=='intrinsics':
                v=np.concatenate((intr[j][:4] if s.sel['core'] else [],intr[j][4:] if s.sel['dist'] else []))
            elif k=='extrinsics': v=ext[j]
            elif k=='frames': v=frames[j]
            elif k=='points': v=points[j]
            else: v=warp
            b[i:i+l]=v
        return b

def board_shape(W,H,spacing,warp):
    """(H,W,3) corners of the board, in its own coordinates, with its deformation"""
    x,y=np.meshgrid(np.arange(W),np.arange(H))
    z=np.zeros((H,W))
    if warp is not None:
        xr=x/(W-1.) if W>1 else x*0.
        yr=y/(H-1.) if H>1 else y*0.
        z=warp[0]*4*xr*(1-xr)+warp[1]*4*yr*(1-yr)
    return cat(x*spacing,y*spacing,z)

def angle_small(a,b):
    c=rdot(a,b)/np.sqrt(rdot(a,a)*rdot(b,b))
    c=np.where(np.real(c)<0,-c,c)
    t=2-2*c
    return np.where(np.real(t)<1e-21,0,np.sqrt(np.where(np.real(t)<1e-21,1,t)))
def SIG(x,knee):
    xr=np.real(x)
    if xr<=0: return 0.
    if xr>=knee: return 1.
    d=x-knee/2.; b=2./knee; a=2./knee**2
    return (a if xr<knee/2. else -a)*d*d+b*d+.5
def chirality(l0,v0,l1,v1,t):
    a=l0*v0; b=l1*v1
    n=lambda x: rdot(x,x)
    xn=n(b+t-a)
    w=(n(b+t+a)-xn, n(-b+t-a)-xn, n(-b+t+a)-xn)
    return w+(all(np.real(x)>0 for x in w),)
def residuals(L,intr,ext,frames,points,warp,obs_board,ifci,obs_point,ipci,tri_v,tri_out,itci,imagersizes,spacing):
    """The documented cost. tri_v: per-observation rays (camera coordinates)"""
    dt=np.result_type(intr,ext if len(ext) else 0.,frames if len(frames) else 0.,points if len(points) else 0.,warp if warp is not None else 0.)
    x=np.zeros(L.Nmeas,dt)
    if L.Nob:
        obj=board_shape(L.W,L.H,spacing,warp)
    for i,(f,ci,ce) in enumerate(ifci):
        a,l=L.mblocks['board',i]
        p=transform(frames[f],obj)
        if ce>=0: p=transform(ext[ce],p)
        q=project(L.model,intr[ci],p)
        w=obs_board[i][...,2]
        e=(q-obs_board[i][...,:2])*np.where(w<0,0,w)[...,None]
        e=np.where((w<0)[...,None],0,e)
        x[a:a+l]=e.ravel()
    for i,(ip,ci,ce) in enumerate(ipci):
        a,l=L.mblocks['point',i]
        w=obs_point[i][2]
        if w<=0: continue
        p=points[ip]
        if ce>=0: p=transform(ext[ce],p)
        x[a:a+2]=(project(L.model,intr[ci],p)-obs_point[i][:2])*w
    o=0
    for i,n in enumerate(L.trisets):
        a,l=L.mblocks['tri',i]
        for j in range(n):
            for k in range(j+1,n):
                if not (tri_out[o+j] or tri_out[o+k]):
                    x[a]=tri_err(tri_v[o+j],tri_v[o+k],itci[o+j][2],itci[o+k][2],ext)
                a+=1
        o+=n
    if ('reg',0) in L.mblocks:
        a,l=L.mblocks['reg',0]
        if L.sel['reg']:
            if L.sel['dist']:
                for ic in range(L.Nci):
                    d=intr[ic][4:]
                    cfg=splined(L.model)
                    if cfg:
                        o_,Nx,Ny,_=cfg
                        for iy in range(Ny):
                            for ix in range(Nx):
                                ux,uy=ix-(Nx-1)/2.,iy-(Ny-1)/2.
                                m=np.hypot(ux,uy); k=10.
                                if m==0: ux,uy,m,k=1.,0.,1.,1.
                                ux/=m; uy/=m
                                dx,dy=d[2*(iy*Nx+ix)],d[2*(iy*Nx+ix)+1]
                                x[a]=.01*(dx*ux+dy*uy); x[a+1]=.01*k*(dx*uy-dy*ux); a+=2
                    else:
                        for j in range(L.nd):
                            sc=.1
                            if L.model in ('LENSMODEL_OPENCV8','LENSMODEL_OPENCV12') and 5<=j<=7: sc=.5
                            x[a]=sc*d[j]; a+=1
            if L.sel['core']:
                sc=.1/(imagersizes[0][0]*.1)
                for ic in range(L.Nci):
                    x[a]  =sc*(intr[ic][2]-.5*(imagersizes[ic][0]-1))
                    x[a+1]=sc*(intr[ic][3]-.5*(imagersizes[ic][1]-1)); a+=2
        if L.sel['unity'] and L.sel['ext'] and L.Nce>0:
            x[a]=10.*(rdot(ext[0][3:],ext[0][3:])-1); a+=1
    return x

def tri_err(va,vb,cea,ceb,ext):
    """Pairwise triangulation error: in the coordinates of the second camera"""
    I6=np.zeros(6)
    rta=ext[cea] if cea>=0 else I6; rtb=ext[ceb] if ceb>=0 else I6
    # cam_a origin and ray in cam_b coordinates
    inva=rt_invert(rta)
    t=transform(rtb,inva[3:])
    v1=rotate(rtb[:3],rotate(-rta[:3],va.astype(np.result_type(va,ext))))
    v0=vb
    def n2c(a,b): c=np.cross(a,b); return rdot(c,c)
    pn=1/n2c(v0,v1)
    l0=np.sqrt(n2c(v1,t)*pn); l1=np.sqrt(n2c(v0,t)*pn)
    m=(v0*l0+t+v1*l1)/2.
    err=angle_small(v0,m)*2.
    # chirality: the true signs of the depths give a smaller discrepancy than any with a flip
    w0,w1,w01,ok=chirality(l0,v0,l1,v1,t)
    if not ok:
        ev=angle_small(v0,v1)
        err=err+ev*(SIG(-w0,3.)+SIG(-w1,3.)+SIG(-w01,3.))
    return err
