#!/usr/bin/env python3
"""P25: the calibration-object geometry and the perfect observations are self-consistent.

Enumerated: (board) sizes x spacings x warps (each alone and broadcast) x sampled ranges x ways to pass the arguments;
(perfect) every arrangement of cameras, frames and points x model x selection x outlier pattern x ways to omit an unused
argument, without and with noise; (corners, measurements) the same problems x camera x manual inlier mask; (synth) the
synthesized views x visibility criterion x obliqueness; (grid) the imager grids. All against direct formulas."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf,itertools,copy
import numpy as np
import ref,probs
THOROUGH=os.environ.get('VERIF_TIER')=='thorough'
def same(a,b,tol=1e-9):
    a=np.asarray(a); b=np.asarray(b)
    return a.shape==b.shape and bool((np.abs(a-b)<=tol*(1+np.abs(b))).all()) if b.size else a.shape==b.shape

# ------------------------------------------------------------------ the reference object
def board_ref(W,H,sp,warp,xs,ys):
    sp=np.asarray(sp,float)
    if sp.ndim==0: sp=np.array([sp,sp])
    bc=np.broadcast_shapes(sp.shape[:-1],() if warp is None else warp.shape[:-1])
    out=np.zeros(bc+(len(ys),len(xs),3))
    for i in np.ndindex(*bc):
        s=np.broadcast_to(sp,bc+(2,))[i]; w=np.zeros(2) if warp is None else np.broadcast_to(warp,bc+(2,))[i]
        for r,y in enumerate(ys):
            for k,x in enumerate(xs):
                xr,yr=x/(W-1),y/(H-1)
                out[i+(r,k)]=(x*s[0],y*s[1],w[0]*(1-(2*xr-1)**2)+w[1]*(1-(2*yr-1)**2))
    return out
SPACINGS=[1,2,.1,np.float64(.3),np.array(.25),np.array([.1,.2]),np.array([1,2]),np.array([[.1,.2],[.3,.1],[.2,.2]]),
          np.array([[[.1,.2],[.3,.4]]]*3)*np.arange(1,4)[:,None,None],np.array([[[.1,.3]],[[.2,.5]]])]
WARPS=[None,np.array([.01,-.02]),np.array([0.,0.]),np.array([1,2]),np.array([[.01,.02],[-.03,.04],[.05,0]]),np.array([[.02,-.01]]),
       np.array([[[.01,.02],[.03,.04]]]*3)]
RANGES=[{},dict(Nx=4),dict(x_corner0=1),dict(x_corner0=-1,x_corner1=3.5,Nx=3),dict(x_corner1=2,Nx=2),dict(Ny=5),dict(y_corner0=.5),
        dict(y_corner0=-2,y_corner1=1,Ny=2,Nx=1),dict(x_corner0=2,x_corner1=0,Nx=3),dict(Nx=2,Ny=3,x_corner0=1,y_corner0=1,x_corner1=1.5,y_corner1=7),
        dict(x_corner1=0),dict(y_corner1=0,Ny=2)]
def bc_ok(a,b):
    try: np.broadcast_shapes(a,b); return True
    except ValueError: return False
def board_check(size):
    import mrcal
    W,H=size; ev=0; out=[]
    for si,sp in enumerate(SPACINGS):
        for wi,wp in enumerate(WARPS):
            if wp is not None and not bc_ok(np.shape(sp)[:-1],wp.shape[:-1]): continue
            for ri,rg in enumerate(RANGES):
                xs=np.linspace(rg.get('x_corner0',0),rg.get('x_corner1',W-1),rg.get('Nx',W)); ys=np.linspace(rg.get('y_corner0',0),rg.get('y_corner1',H-1),rg.get('Ny',H))
                want=board_ref(W,H,sp,wp,xs,ys)
                a=copy.deepcopy(sp); b=None if wp is None else wp.copy()
                calls=[('plain',lambda: mrcal.ref_calibration_object(W,H,a,calobject_warp=b,**rg))]
                if np.ndim(sp)==0:
                    oi=dict(observations_board=np.zeros((3,H,W,3)),calibration_object_spacing=float(sp),calobject_warp=b)
                    calls.append(('optimization_inputs',lambda: mrcal.ref_calibration_object(optimization_inputs=oi,**rg)))
                    if wp is None:
                        oi2={k:v for k,v in oi.items() if k!='calobject_warp'}
                        calls.append(('optimization_inputs without a warp',lambda: mrcal.ref_calibration_object(optimization_inputs=oi2,**rg)))
                for name,f in calls:
                    ev+=1
                    cfg=dict(W=W,H=H,spacing=np.asarray(sp).tolist(),warp=None if wp is None else wp.tolist(),range=rg,how=name)
                    try: got=f()
                    except Exception as e: out.append((cfg,'raised: %r'%e)); continue
                    if not same(got,want,1e-12): out.append((cfg,'wrong object geometry' if got.shape==want.shape else 'wrong shape %s'%(got.shape,)))
                if not np.array_equal(a,sp) or (wp is not None and not np.array_equal(b,wp)): out.append((cfg,'modified an argument'))
    return ev,ev,out
def args_check(_):
    import mrcal
    oi=dict(observations_board=np.zeros((3,2,4,3)),calibration_object_spacing=.1,calobject_warp=None); ev=0; out=[]
    for w,h,s,o in itertools.product((None,4),(None,2),(None,.1),(None,oi)):
        n=sum(v is not None for v in (w,h,s)); ok=(n==3)!=(o is not None) and n in (0,3); ev+=1
        try: got=mrcal.ref_calibration_object(w,h,s,optimization_inputs=o); r=True
        except Exception: r=False
        if r!=ok: out.append((dict(W=w,H=h,spacing=s,inputs=o is not None),'argument combination %s'%('rejected' if ok else 'accepted')))
        elif r and not same(got,board_ref(4,2,.1,None,range(4),range(2)),1e-12): out.append((dict(W=w),'wrong object geometry'))
    return ev,ev,out

# ------------------------------------------------------------------ optimization problems
MODELS=['LENSMODEL_PINHOLE','LENSMODEL_OPENCV8',probs.SPL2,'LENSMODEL_CAHVORE_linearity=0.37','LENSMODEL_CAHVOR','LENSMODEL_LATLON','LENSMODEL_LONLAT','LENSMODEL_STEREOGRAPHIC',probs.SPL3,'LENSMODEL_OPENCV4']
FAM={
 'mono':dict(sens=((0,-1),),Nf=3),
 'mono, posed':dict(sens=((0,0),),Nf=2),
 'pair':dict(sens=((0,-1),(1,0)),Nf=2),
 'pair, sparse':dict(sens=((0,-1),(1,0)),Nf=3,boards=[(0,0),(1,0),(1,1),(2,1)]),
 'two, second moves':dict(sens=((0,-1),(1,0),(1,1)),Nf=2,boards=[(0,0),(0,2),(1,0),(1,1),(1,2)]),
 'moving':dict(sens=((0,-1),(0,0),(0,1)),Nf=1),
 'points':dict(sens=((0,-1),(1,0)),Nf=0,Np=5,warp=False),
 'points, fixed':dict(sens=((0,-1),(1,0)),Nf=0,Np=4,Npf=2,warp=False,pts=[(0,0),(0,1),(1,1),(2,0),(3,1)]),
 'both':dict(sens=((0,-1),(1,0)),Nf=2,Np=4,Npf=1),
 'both, moving':dict(sens=((0,0),(0,1),(1,1)),Nf=1,Np=3,pts=[(0,2),(1,0),(1,1),(2,1),(2,2)]),
 'mono, points':dict(sens=((0,-1),),Nf=1,Np=4,Npf=4),
}
OUTL={'none':(lambda P:{},lambda P:{}),
 'one':(lambda P:{(0,0,0):-1.},lambda P:{0:-1.}),
 'zero weight':(lambda P:{(0,1,0):0.,(len(P['B'])-1,0,1):-2.5},lambda P:{1:0.}),
 'an image':(lambda P:{(0,y,x):-1. for y in range(P['H']) for x in range(P['W'])},lambda P:{i:-.5 for i in range(0,P['Npt'],2)}),
 'last':(lambda P:{(len(P['B'])-1,P['H']-1,P['W']-1):-1.},lambda P:{P['Npt']-1:-3.})}
def mk(fam,model,sel,outl,WH=(3,2),warp=None,**kw):
    a=dict(FAM[fam]); 
    if warp is not None and 'warp' not in a: a['warp']=warp
    P0=probs.Prob(model=model,W=WH[0],H=WH[1],**a)
    d=dict(B=P0.boards,W=WH[0],H=WH[1],Npt=len(P0.pts))
    a['wb']=OUTL[outl][0](d) if P0.boards else {}; a['wp']=OUTL[outl][1](d) if P0.pts else {}
    return probs.Prob(model=model,sel=sel,W=WH[0],H=WH[1],**a,**kw)
def variants(k,P):
    """the equivalent ways of leaving out what isn't used"""
    yield 'full',k
    if len(P.ext)==0:
        yield 'rt_cam_ref omitted',{a:v for a,v in k.items() if a!='rt_cam_ref'}
        yield 'rt_cam_ref None',dict(k,rt_cam_ref=None)
    if not len(P.pts):
        yield 'points omitted',{a:v for a,v in k.items() if a not in('points','Npoints_fixed')}
        yield 'points None',dict(k,points=None,observations_point=None,indices_point_camintrinsics_camextrinsics=None)
        yield 'points empty',dict(k,observations_point=np.zeros((0,3)),indices_point_camintrinsics_camextrinsics=np.zeros((0,3),np.int32))
    if not P.boards:
        yield 'boards omitted',{a:v for a,v in k.items() if a!='rt_ref_frame'}
        yield 'boards None',dict(k,rt_ref_frame=None,observations_board=None,indices_frame_camintrinsics_camextrinsics=None)
    if P.warp is None: yield 'warp None',dict(k,calobject_warp=None)
def cp(k): return {a:(v.copy() if isinstance(v,np.ndarray) else v) for a,v in k.items()}
def perfect_q(P):
    obj=ref.board_shape(P.W,P.H,P.spacing,P.warp)
    def cam(ce,p): return ref.transform(P.ext[ce],p) if ce>=0 else p
    pb=np.array([cam(ce,ref.transform(P.frames[f],obj)) for f,ci,ce in P.ifci]).reshape(-1,P.H,P.W,3)
    qb=np.array([ref.project(P.model,P.intr[ci],p) for (f,ci,ce),p in zip(P.ifci,pb)]).reshape(-1,P.H,P.W,2)
    qp=np.array([ref.project(P.model,P.intr[ci],cam(ce,P.points[ip])) for ip,ci,ce in P.ipci]).reshape(-1,2)
    return pb,qb,qp
def rows(P): return 2*P.W*P.H*len(P.boards),2*len(P.pts)
def perfect_check(it):
    import mrcal
    fam,model,sel,outl,warp=it; P=mk(fam,model,sel,outl,warp=warp); ev=nd=0; out=[]
    if sel['warp'] and P.warp is None or sel['frames'] and False: return 0,0,out
    pb,qb,qp=perfect_q(P); nb,npt=rows(P)
    for name,k0 in variants(P.kw(),P):
        cfg=dict(fam=fam,model=model,sel=sel,outliers=outl,warp=P.warp is not None,how=name)
        try: mrcal.optimizer_callback(**cp(k0),no_jacobian=True,no_factorization=True)
        except Exception as e: continue                      # not a problem the optimizer takes
        ev+=1; k=cp(k0)
        try: mrcal.make_perfect_observations(k,observed_pixel_uncertainty=0)
        except Exception as e: out.append((cfg,'make_perfect_observations() raised %s'%str(e)[:90])); continue
        nd+=1
        for a,v in k0.items():
            if a in('observations_board','observations_point') and v is not None:
                if not np.array_equal(v[...,2],k[a][...,2]): out.append((cfg,'weights changed'))
                if v.size and not same(k[a][...,:2],qb if a.endswith('board') else qp,1e-7): out.append((cfg,'%s are not the projections of the geometry'%a))
            elif isinstance(v,np.ndarray) and not np.array_equal(v,k[a]): out.append((cfg,'%s changed'%a))
        x=mrcal.optimizer_callback(**k,no_jacobian=True,no_factorization=True)[1]
        if np.abs(x[:nb+npt]).max(initial=0)>1e-7: out.append((cfg,'the residual of the perfect observations is not 0'))
        x0=mrcal.optimizer_callback(**cp(k0),no_jacobian=True,no_factorization=True)[1]
        if len(x)!=len(x0) or not same(x[nb+npt:],x0[nb+npt:]): out.append((cfg,'the other measurements changed'))
    return ev,nd,out
def noise_check(it):
    """with noise: zero-mean, of the requested size after weighting, in every observation; what was an outlier still is one"""
    import mrcal
    fam,model,outl,sigma=it; sel=dict(core=1,dist=1,ext=1,frames=1,warp=0,reg=0,unity=0); out=[]; ev=nd=0
    P=mk(fam,model,sel,outl,WH=(9,8)); pb,qb,qp=perfect_q(P); nb,npt=rows(P)
    for wscale in (1.,.2,6.):
        k=P.kw()
        for a in ('observations_board','observations_point'):
            if a in k: m=k[a][...,2]>0; k[a][...,2][m]*=wscale
        k0=cp(k); cfg=dict(fam=fam,model=model,outliers=outl,sigma=sigma,weights=wscale); np.random.seed(3)
        s=sigma
        if sigma is None:
            if 2*P.L.Nstate>sum(2*np.count_nonzero(k[a][...,2]>0) for a in ('observations_board','observations_point') if a in k): continue              # not enough data to say what the noise is
            mrcal_x=mrcal.optimizer_callback(**cp(k),no_jacobian=True,no_factorization=True)[1]
            ex=mrcal_x[:nb+npt].reshape(-1,2); inl=np.concatenate([k[a][...,2].ravel()>0 for a in ('observations_board','observations_point') if a in k])
            s=np.sqrt((ex[inl]**2).mean())                   # the noise in the input
            mrcal.make_perfect_observations(k)
        else: mrcal.make_perfect_observations(k,observed_pixel_uncertainty=sigma)
        ev+=1; nd+=1
        x=mrcal.optimizer_callback(**cp(k),no_jacobian=True,no_factorization=True)[1]
        o=0
        for a,q in (('observations_board',qb),('observations_point',qp)):
            if a not in k: continue
            w=k0[a][...,2]; n=2*w.size
            if not np.array_equal(w,k[a][...,2]): out.append((cfg,'weights changed: outliers are no longer marked' if (w<=0).any() else 'weights changed'))
            d=(k[a][...,:2]-q); inl=w>0; e=d[inl]*w[inl][:,None]
            xs=x[o:o+n].reshape(-1,2)
            if not same(xs[inl.ravel()],-e,1e-5) and not same(xs[inl.ravel()],e,1e-5): out.append((cfg,'residual is not the noise'))
            if np.abs(xs[~inl.ravel()]).max(initial=0)>0: out.append((cfg,'an outlier has a residual'))
            if (d[inl]==0).any(): out.append((cfg,'an observation got no noise'))
            if e.size>=150:
                sd=e.std()
                if not .7<sd/s<1.4 or abs(e.mean())>.4*s or abs((e[:,0]*e[:,1]).mean())>.5*s*s: out.append((cfg,'the noise does not have the requested size'))
                u=(P.ob if a.endswith('board') else P.op)[...,2][inl]; hi=u>np.median(u)
                if not .6<e[hi].std()/e[~hi].std()<1.6: out.append((cfg,'the weighted noise depends on the weight'))
            o+=n
    return ev,nd,out

def corners_check(it):
    import mrcal
    fam,model,outl,warp=it; sel=dict(core=1,dist=1,ext=1,frames=1,warp=0,reg=1,unity=0); out=[]; ev=nd=0
    P=mk(fam,model,sel,outl,warp=warp); pb,qb,qp=perfect_q(P)
    if not P.boards:
        try: mrcal.hypothesis_board_corner_positions(**P.kw()); out.append((dict(fam=fam),'no boards: accepted'))
        except Exception: pass
        return 1,1,out
    masks=[None,np.ones(P.ob.shape[:3],bool),np.zeros(P.ob.shape[:3],bool),np.arange(P.ob[...,2].size).reshape(P.ob.shape[:3])%3!=0]
    for (name,k),mi,ic in itertools.product(list(variants(P.kw(),P)),range(len(masks)),[None]+list(range(len(P.intr)))):
        if name=='points None' and False: continue
        ev+=1; nd+=1; cfg=dict(fam=fam,outliers=outl,how=name,mask=mi,icam=ic,warp=P.warp is not None)
        m=masks[mi]; inl=P.ob[...,2]>0 if m is None else m; k0=cp(k); mm=None if m is None else m.copy()
        try: got=mrcal.hypothesis_board_corner_positions(icam_intrinsics=ic,idx_inliers=mm,**k)
        except Exception as e: out.append((cfg,'raised %s'%str(e)[:90])); continue
        cam=np.ones(len(P.ifci),bool) if ic is None else P.ifci[:,1]==ic
        want=(pb,pb[cam],pb[inl&cam[:,None,None]],pb[~inl&cam[:,None,None]])
        for i,(g,w) in enumerate(zip(got,want)):
            if not same(g,w): out.append((cfg,'output %d of hypothesis_board_corner_positions()'%i))
        if len(got)!=4: out.append((cfg,'number of outputs'))
        if m is not None and not np.array_equal(m,mm): out.append((cfg,'idx_inliers was modified'))
        for a,v in k0.items():
            if isinstance(v,np.ndarray) and not np.array_equal(v,k[a]): out.append((cfg,'%s was modified'%a))
    return ev,nd,out
def meas_check(it):
    import mrcal
    fam,model,outl,sel=it; P=mk(fam,model,sel,outl); out=[]; ev=nd=0; nb,npt=rows(P)
    if sel['warp'] and P.warp is None: return 0,0,out
    try: xg=mrcal.optimizer_callback(**P.kw(),no_jacobian=True,no_factorization=True)[1]
    except Exception: return 0,0,out                         # nothing to optimize
    xr=P.resid()
    for (name,k),ic,gx in itertools.product(list(variants(P.kw(),P)),[None]+list(range(len(P.intr)))+[7],(False,True)):
        try: mrcal.optimizer_callback(**cp(k),no_jacobian=True,no_factorization=True)
        except Exception: continue
        cfg=dict(fam=fam,outliers=outl,sel=sel,how=name,icam=ic,x_given=gx)
        for f,ob,idx,i0,n in ((mrcal.measurements_board,P.ob,P.ifci,0,nb),(mrcal.measurements_point,P.op,P.ipci,nb,npt)):
            ev+=1; nd+=n>0
            m=(ob[...,2]>0)&(True if ic is None else (idx[:,1]==ic).reshape((-1,)+(1,)*(ob.ndim-2)))
            want=xr[i0:i0+n].reshape(ob.shape[:-1]+(2,))[m]
            try:
                g=f(k,icam_intrinsics=ic,**(dict(x=xg.copy()) if gx else {}))
                g2=f(k,icam_intrinsics=ic,return_observations=True,**(dict(x=xg.copy()) if gx else {}))
            except Exception as e: out.append((cfg,'%s raised %s'%(f.__name__,str(e)[:90]))); continue
            if not same(g,want,1e-6): out.append((cfg,'%s() reports other measurements'%f.__name__)); continue
            if not same(g2[0],want,1e-6) or not same(g2[1],ob[m][...,:2],1e-12): out.append((cfg,'%s(return_observations) reports other measurements'%f.__name__))
    return ev,nd,out

# ------------------------------------------------------------------ synthesized views
WHICH=['all-cameras-must-see-full-board','some-cameras-must-see-full-board','all-cameras-must-see-half-board','some-cameras-must-see-half-board']
def synth_check(it):
    import mrcal
    which,Ncam,noise,angle,warp,vary=it; out=[]; Nframes=3; W,H,sp=5,3,.2
    models=[]
    for i in range(Ncam):
        models.append(mrcal.cameramodel(intrinsics=('LENSMODEL_OPENCV4',np.array([600.+20*i,610.,500+9*i,390.,.1,-.05,.002,-.003])),imagersize=(1000-30*i,800+15*i),rt_cam_ref=np.array([.02,-.05*i,.03,-.25*i,.05,.1*i])))
    wp=np.array([.02,-.03]) if warp else None
    center=np.array([.2,-.3,.1,.1,.05,2.2]) if vary==0 else np.array([-.1,.25,-.3,.8,-.2,1.9])
    rad=np.array([.3,.3,.3,.9,.7,.4])*noise; pc=np.array([.3,-.2,.1]) if vary else np.zeros(3)
    np.random.seed(5+vary)
    kw=dict(object_width_n=W,object_height_n=H,object_spacing=sp,calobject_warp=wp,rt_ref_boardcenter=center.copy(),rt_ref_boardcenter__noiseradius=rad.copy(),Nframes=Nframes,which=which)
    if angle is not None: kw.update(max_oblique_angle_deg=angle,pcamera_nominal_ref=pc.copy())
    cfg=dict(which=which,Ncam=Ncam,noise=noise,angle=angle,warp=warp,vary=vary)
    obj=board_ref(W,H,sp,wp,range(W),range(H)); c=np.array([(W-1)*sp/2,(H-1)*sp/2,0])
    def vis(q): return np.array([[np.count_nonzero((q[f,i,...,0]>=0)&(q[f,i,...,1]>=0)&(q[f,i,...,0]<=m.imagersize()[0]-1)&(q[f,i,...,1]<=m.imagersize()[1]-1)) for i,m in enumerate(models)] for f in range(len(q))])
    def acceptable(q):
        n=vis(q); n= n==W*H if 'full' in which else n>=W*H/2
        return n.all(1) if which.startswith('all') else n.any(1)
    if noise==0:
        # every draw is the same; an unacceptable pose would never end
        p=ref.transform(center,obj-c); q=np.array([[ref.project('LENSMODEL_OPENCV4',m.intrinsics()[1],ref.transform(m.rt_cam_ref(),p)) for m in models]])
        if not acceptable(q)[0] or angle is not None and not oblique(center,pc,angle): return 0,0,out
    q,Rt=mrcal.synthesize_board_observations(models,**kw)
    if q.shape!=(Nframes,Ncam,H,W,2) or Rt.shape!=(Nframes,4,3): out.append((cfg,'shapes')); return 1,1,out
    for f in range(Nframes):
        R=Rt[f,:3]
        if np.abs(R@R.T-np.eye(3)).max()>1e-9: out.append((cfg,'not a rotation'))
        pr=obj@R.T+Rt[f,3]
        for i,m in enumerate(models):
            if not same(q[f,i],ref.project('LENSMODEL_OPENCV4',m.intrinsics()[1],ref.transform(m.rt_cam_ref(),pr)),1e-7): out.append((cfg,'q is not the projection of the reported board pose'))
        rtc=np.r_[np.zeros(3),R@c+Rt[f,3]]; r=ref.r_from_R(R)
        d=np.r_[r,rtc[3:]]-center
        if (np.abs(d)>rad+1e-9).any(): out.append((cfg,'the board is farther from the nominal pose than requested'))
        if angle is not None and not oblique(np.r_[r,rtc[3:]],pc,angle): out.append((cfg,'the view is more oblique than requested'))
    if noise and (np.ptp(Rt,axis=0)==0).all(): out.append((cfg,'all the poses are identical'))
    if not acceptable(q).all(): out.append((cfg,'a view does not meet the visibility criterion'))
    return 1,1,out
def oblique(rt,pc,angle):
    d=rt[3:]-pc; n=ref.rotate(rt[:3],np.array([0,0,1.])); return abs(d@n)/np.linalg.norm(d)>np.cos(np.radians(angle))-1e-12
def grid_check(it):
    import mrcal
    nw,nh,W,H=it; out=[]; cfg=dict(grid=(nw,nh),imager=(W,H)); n=nh if nh is not None else int(round(H/W*nw))
    q=mrcal.sample_imager(nw,nh,W,H)
    def lin(N,hi): return [0.]*1 if N==1 else [i*hi/(N-1) for i in range(N)]
    want=np.array([[(x,y) for x in lin(nw,W-1)] for y in lin(n,H-1)]).reshape(n,nw,2)
    if not same(q,want,1e-12): out.append((cfg,'sample_imager()'))
    for norm in (False,True):
        ms=['LENSMODEL_PINHOLE','LENSMODEL_OPENCV4','LENSMODEL_STEREOGRAPHIC']; Is=[probs.intrinsics(m,i,W,H) for i,m in enumerate(ms)]
        if min(W,H)<50: continue
        v,g=mrcal.sample_imager_unproject(nw,nh,W,H,ms,Is,normalize=norm)
        if v.shape!=(3,n,nw,3) or not same(g,want,1e-12): out.append((cfg,'sample_imager_unproject() shapes')); continue
        for i,m in enumerate(ms):
            if not same(ref.project(m,Is[i],v[i]),want,1e-5): out.append((cfg,'sample_imager_unproject(): a ray does not project to its pixel'))
            v1,g1=mrcal.sample_imager_unproject(nw,nh,W,H,m,Is[i],normalize=norm)
            if not same(v1,v[i],1e-12) or not same(g1,want,1e-12): out.append((cfg,'sample_imager_unproject() of one camera'))
            if norm and not same(np.linalg.norm(v1,axis=-1),np.ones((n,nw)),1e-9): out.append((cfg,'not normalized'))
    return 1,1,out

FN=dict(board=board_check,args=args_check,perfect=perfect_check,noise=noise_check,corners=corners_check,meas=meas_check,synth=synth_check,grid=grid_check)
def go(it): return FN[it[0]](it[1])
def main(c,b):
    S0=dict(core=1,dist=1,ext=1,frames=1,warp=1,reg=1,unity=0)
    SEL=[dict(S0,**s) for s in ({},dict(warp=0),dict(core=0),dict(dist=0,reg=0),dict(ext=0),dict(frames=0),dict(reg=0,warp=0),dict(core=0,dist=0,reg=0),dict(ext=0,frames=0),dict(unity=1))]
    if THOROUGH: SEL=[s for s in probs.sels()]
    sizes=[(2,2),(3,2),(2,3),(4,3),(3,5),(10,9)]+([(7,2),(2,7),(14,14)] if THOROUGH else [])
    items=[('board',s) for s in sizes]+[('args',0)]
    models=MODELS if THOROUGH else MODELS[:6]
    for fam,m,s,o,w in itertools.product(FAM,models,SEL,OUTL,(True,False)):
        if not w and (s['warp'] or o!='one'): continue
        if not THOROUGH and m not in MODELS[:3] and (o!='one' or s is not SEL[1]): continue
        items.append(('perfect',(fam,m,s,o,w)))
    for fam,m,o,sg in itertools.product(FAM,models[:4],OUTL,(None,.3,2.)): items.append(('noise',(fam,m,o,sg)))
    for fam,m,o,w in itertools.product(FAM,models[:1],OUTL,(True,False)): items.append(('corners',(fam,m,o,w)))
    for fam,m,o,s in itertools.product(FAM,models[:2],OUTL,SEL): items.append(('meas',(fam,m,o,s)))
    for which,n,noise,a,w,v in itertools.product(WHICH,(1,2,3),(0,.3,1.),(None,20.,60.),(False,True),(0,1)): items.append(('synth',(which,n,noise,a,w,v)))
    for nw,nh,W,H in itertools.product((1,2,3,7),(None,1,2,5),(2,60,640),(3,80,400)):
        items.append(('grid',(nw,nh,W,H)))
    ev=nd=0
    for it,r in zip(items,vf.pmap(go,items)):
        if r[0]!='ok': c.violation('%s:crash'%it[0],'%s %s: %s'%(it[0],str(it[1])[:200],str(r[1])[-300:]),dict(item=it,crash=str(r[1])[-600:])); continue
        n,d,out=r[1]; ev+=n; nd+=d; c.count(it[0],n)
        for cfg,what in out: c.violation('%s:%s'%(it[0],what),'%s: %s'%(what,cfg),dict(kind=it[0],what=what,config=cfg))
    c.sample(dict(kinds=sorted(FN),families=list(FAM),outlier_patterns=list(OUTL)))
    c.sample(dict(kind='board',sizes=sizes,spacings=len(SPACINGS),warps=len(WARPS),ranges=len(RANGES)))
    return dict(evaluations=ev,distinct_nontrivial=nd,exhaustive=True,
      rule='every size x spacing x warp x range of the object; every arrangement x model x selection x outlier pattern x omitted argument for the perfect observations, corner positions and measurements; every visibility criterion x cameras x spread for the synthesized views. Nontrivial: accepted by the optimizer, and compared')
if __name__=='__main__': vf.main(main,'P25','exploration')
