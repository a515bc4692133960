#!/usr/bin/env python3
"""P29: image reprojection maps send each pixel to the same viewed direction.

Enumerated: (map) pairs of lens models x parameter sets x relative poses x every mode (intrinsics only, rotation only, finite
distances, planes in every scaling and sign) x every pixel of the output image; every combination of mode arguments; masking
with a valid-intrinsics region; (pinhole) models x requested pixels x focal/image scales; (transform) images of every
type/channel count x maps at every quarter-pixel position inside, on and beyond the edges. Oracle: lib/ref.py projections
and plain geometry; an unprojection is believed only if ref.project() brings it back to its pixel."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf,itertools,types
import numpy as np
THOROUGH=os.environ.get('VERIF_TIER')=='thorough'
QUICKMODELS=['LENSMODEL_PINHOLE','LENSMODEL_STEREOGRAPHIC','LENSMODEL_LONLAT','LENSMODEL_LATLON','LENSMODEL_OPENCV4','LENSMODEL_OPENCV5','LENSMODEL_OPENCV8','LENSMODEL_OPENCV12',
   'LENSMODEL_CAHVOR','LENSMODEL_CAHVORE_linearity=0.37','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=4_Ny=4_fov_x_deg=80','LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=11_Ny=9_fov_x_deg=170']
DIST={'LENSMODEL_OPENCV4':(-.1,.02,.003,-.004),'LENSMODEL_OPENCV5':(-.1,.02,.003,-.004,.01),'LENSMODEL_OPENCV8':(.1,.02,.003,-.004,.01,.12,.03,.008),
  'LENSMODEL_OPENCV12':(.1,.02,.003,-.004,.01,.12,.03,.008,.002,-.003,.004,-.001),'LENSMODEL_CAHVOR':(.05,-.04,.01,.02,.01),'LENSMODEL_CAHVORE_linearity=0.37':(.05,-.04,.01,.02,.01,0,0,0)}
def cam(model,i,pose,size,zoom=1.):
    """a small camera, so that all its pixels can be enumerated"""
    import mrcal,ref
    W,H=size
    f=.9*W*zoom/(1 if 'LAT' not in model else 1.5)
    n=ref.nparams(model)-4
    d=np.zeros(n) if i==0 else np.array(DIST[model])*(1,-.6)[i-1] if model in DIST else .015*np.cos(1+np.arange(n)*1.7)*i
    c=((W-1)/2.,(H-1)/2.) if i==0 else (W*.47,H*.55)
    return mrcal.cameramodel(intrinsics=(model,np.r_[f,f*1.07,c[0],c[1],d]),imagersize=size,rt_cam_ref=np.array(pose,float))
def angle_ok(model,v):
    import domain
    th=np.degrees(np.arctan2(np.hypot(v[...,0],v[...,1]),v[...,2]))
    ok=th<domain.limit(model)-1
    if 'SPLINED' in model:
        import ref
        o,Nx,Ny,fov=ref.splined(model); s=ref.seg_per_u((o,Nx,Ny,fov)); m=(1 if o==2 else 2)
        with np.errstate(all='ignore'):
            n=np.sqrt((v*v).sum(-1)); uy=2*v[...,1]/(n+v[...,2]); ux=2*v[...,0]/(n+v[...,2])
        ok&=(np.abs(uy)<=(Ny-1-m)/2./s)&(np.abs(ux)<=(Nx-1-m)/2./s)
    if model in('LENSMODEL_LONLAT','LENSMODEL_LATLON'):
        n=np.sqrt((v*v).sum(-1)); ok&=np.maximum(np.abs(v[...,0]),np.abs(v[...,1]))<.999*n
    return ok
def grid(W,H): return np.stack(np.meshgrid(np.arange(W,dtype=float),np.arange(H,dtype=float)),-1)
def directions(m,q):
    """unit directions seen at q, and where they are known"""
    import mrcal,ref
    lm,intr=m.intrinsics()
    v=mrcal.unproject(np.ascontiguousarray(q),lm,intr,normalize=True)
    with np.errstate(all='ignore'):
        ok=np.isfinite(v).all(-1)&(np.abs(ref.project(lm,intr,np.where(np.isfinite(v),v,1.))-q).max(-1)<1e-5)
        ok&=angle_ok(lm,np.where(np.isfinite(v),v,1.))
    return v,ok
POSES=[(0,0,0,0,0,0),(.02,-.03,.05,0,0,0),(0,0,0,.3,-.2,.1),(.1,.2,-.1,.4,.1,-.3),(0,.6,0,-1,0,.5),(0,0,np.pi/2,.2,.1,0),(0,0,np.pi,0,.5,0),(1e-7,0,0,.1,0,0),(-.5,.3,1.1,2,-1,.5)]
# cameras that almost coincide, for models with realistic focal lengths
NEARLY=[(0,0,0,0,0,0)]+[tuple(np.roll((sg*m,.3*m,0),k))+t for m in (1e-6,1e-5,1e-4,3e-4,1e-3,3e-3,1e-2) for k in range(3) for sg in (1,-1) for t in ((0,0,0),)]+\
  [(0,0,0)+tuple(np.roll((m,-m,0),k)) for m in (1e-5,1e-4,1e-3,1e-2) for k in range(3)]+[(1e-4,-2e-4,3e-4,1e-3,-2e-3,1e-3)]
PLANES=[((0,0,1.),5.),((0,0,2.),10.),((0,0,-1.),-5.),((.1,-.2,1.),4.),((-.3,.6,-3.),-12.),((0,1.,.3),3.),((0,-2.,-.6),-6.),((0,0,1.),1e4),((1e-3,0,1e-3),1e-2)]
def maps(it):
    """one pair of models, all modes"""
    import mrcal,ref
    lf,lt,pairs,*opt=it; ev=nd=0; out=[]
    size_f,size_t=(13,10),(11,8)
    POSES=globals()['POSES']
    if opt: size_f=(1000,800); POSES=NEARLY
    for i,j,kf,kt,zoom in pairs:
        mf,mt=cam(lf,i,POSES[kf],size_f),cam(lt,j,POSES[kt],size_t,zoom)
        before=[m.intrinsics()[1].tobytes()+m.rt_cam_ref().tobytes() for m in (mf,mt)]
        v,ok=directions(mt,grid(*size_t))
        rtf,rtt=[np.array(POSES[k],float) for k in (kf,kt)]
        rt_ft=mrcal_compose(rtf,ref.rt_invert(rtt))     # from <- to
        modes=[('intrinsics',dict(intrinsics_only=True))]+[('rotation',{})]+[('distance',dict(distance=d)) for d in (.7,3.,1e5)]
        modes+=[('plane',dict(plane_n=np.array(n),plane_d=d)) for n,d in PLANES]
        for name,kw in modes:
            o2=ok.copy()
            if name=='intrinsics': p=v
            elif name=='rotation': p=ref.rotate(rt_ft[:3],v)
            elif name=='distance': p=ref.transform(rt_ft,v*kw['distance'])
            else:
                # intersection of the ray, in the FROM coordinates
                c=rt_ft[3:]; d=ref.rotate(rt_ft[:3],v)
                den=d@kw['plane_n']
                with np.errstate(all='ignore'): k=(kw['plane_d']-c@kw['plane_n'])/den
                o2&=np.isfinite(k)&(k>1e-3)&(np.abs(den)>1e-4*np.linalg.norm(kw['plane_n']))&(k<1e6)
                p=c+np.where(o2,k,1.)[...,None]*d
            with np.errstate(all='ignore'):
                o2&=angle_ok(lf,p)&(np.linalg.norm(p,axis=-1)>.05)
                want=ref.project(lf,mf.intrinsics()[1],np.where(o2[...,None],p,(0,0,1.)))
            try: got=mrcal.image_transformation_map(mf,mt,**kw)
            except Exception as e:
                out.append((f'map-{name}-raises',f'from {lf} to {lt}: image_transformation_map({kw}) raised {e!r}')); ev+=1; continue
            ev+=o2.sum(); nd+=o2.sum()
            w=f'from {lf} {mf.intrinsics()[1].tolist()} rt={POSES[kf]} to {lt} {mt.intrinsics()[1].tolist()} rt={POSES[kt]}: image_transformation_map({kw})'
            if got.shape!=size_t[::-1]+(2,) or got.dtype!=np.float32:
                out.append((f'map-{name}-shape',f'{w} returned {got.shape} {got.dtype}')); continue
            o2&=np.abs(want).max(-1)<1e4
            with np.errstate(all='ignore'): e=np.where(o2,np.abs(got-want).max(-1),0)
            e=np.where(np.isfinite(e),e,9e9)
            if (e>2e-4*(1+np.abs(np.where(o2[...,None],want,0)).max(-1)/20)).any():
                y,x=np.unravel_index(e.argmax(),e.shape)
                out.append((f'map-{name}',f'{w}: output pixel {(x,y)} maps to {got[y,x].tolist()}, not {want[y,x].tolist()}'))
        if before!=[m.intrinsics()[1].tobytes()+m.rt_cam_ref().tobytes() for m in (mf,mt)]: out.append(('map-modifies',f'image_transformation_map() modified a model ({lf},{lt})'))
    return (int(ev),int(nd),out)
def mrcal_compose(a,b):
    import ref
    R=ref.R_from_r(a[:3])@ref.R_from_r(b[:3])
    return np.r_[ref.r_from_R(R),ref.transform(a,b[3:])]
# ------------------------------------------------------------------ arguments, masks
def stand_in():
    """matplotlib may not be there. image_transformation_map() needs only its point-in-polygon test"""
    try: import matplotlib.path; return
    except ImportError: pass
    class Path:
        def __init__(s,v,*a,**k): s.v=np.array(v,float).reshape(-1,2)
        def contains_points(s,p,*a,**k):
            r=np.zeros(len(p),bool); n=len(s.v)
            for i in range(n):
                (x0,y0),(x1,y1)=s.v[i-1],s.v[i]
                if y0==y1: continue
                r^=((y0>p[:,1])!=(y1>p[:,1]))&(p[:,0]<(x1-x0)*(p[:,1]-y0)/(y1-y0)+x0)
            return r
    a,b=types.ModuleType('matplotlib'),types.ModuleType('matplotlib.path'); b.Path=Path; a.path=b
    sys.modules['matplotlib']=a; sys.modules['matplotlib.path']=b
def masks(it):
    import mrcal
    stand_in()
    lf,lt=it; ev=nd=0; out=[]
    regions=[((2.3,2.3),(9.7,2.3),(9.7,7.7),(2.3,7.7)),((.5,.5),(11.5,.6),(6.1,9.3)),((-5,-5),(50,-5),(50,50),(-5,50.)),((1.2,1.2),(1.3,1.2),(1.3,1.3)),((2.3,1.3),(9.7,1.3),(9.7,7.7),(6.1,3.2),(2.3,7.7))]
    for reg in regions:
        for kf,kt in ((0,0),(1,0),(0,3)):
            mf,mt=cam(lf,1,POSES[kf],(13,10)),cam(lt,1,POSES[kt],(11,8))
            mf.valid_intrinsics_region(np.array(reg))
            for kw in (dict(intrinsics_only=True),{},dict(distance=3.),dict(plane_n=np.array((0,.1,1.)),plane_d=4.)):
                a=mrcal.image_transformation_map(mf,mt,**kw); b=mrcal.image_transformation_map(mf,mt,mask_valid_intrinsics_region_from=True,**kw); ev+=1
                p=np.array(reg); inside=np.zeros(a.shape[:2],bool); near=np.zeros(a.shape[:2],bool)
                for i in range(len(p)):
                    (x0,y0),(x1,y1)=p[i-1],p[i]
                    d=np.hypot(x1-x0,y1-y0); near|=np.abs((a[...,0]-x0)*(y1-y0)-(a[...,1]-y0)*(x1-x0))/d<1e-3
                    if y0!=y1: inside^=((y0>a[...,1])!=(y1>a[...,1]))&(a[...,0]<(x1-x0)*(a[...,1]-y0)/(y1-y0)+x0)
                near|=~np.isfinite(a).all(-1)
                nd+=1
                w=f'from {lf} to {lt}, poses {kf,kt}, region {reg}, {kw}'
                if (np.abs(b-a).max(-1)[inside&~near]>2e-4).any(): out.append(('mask-inside',w+': masking changed pixels inside the valid-intrinsics region'))
                o=b[~inside&~near]
                if len(o) and not ((o<=-1)|(o[:,:1]>12)|(o[:,1:]>9)).any(-1).all(): out.append(('mask-outside',w+': pixels outside the valid-intrinsics region are still shown'))
    return (ev,nd,out)
def args(it):
    import mrcal
    ev=nd=0; out=[]
    mf,mt=cam(it[0],1,POSES[3],(13,10)),cam(it[1],1,POSES[1],(11,8))
    for io,d,n,pd in itertools.product((False,True),(None,0.,3.),(None,np.array((0,0,1.))),(None,0.5,7.)):
        kw=dict(intrinsics_only=io,distance=d,plane_n=n,plane_d=pd); ev+=1
        bad=((n is None)!=(pd is None)) or (n is not None and io) or (d is not None and (io or n is not None))
        try: r=mrcal.image_transformation_map(mf,mt,**kw); ok=True
        except Exception as e: ok=False
        nd+=1
        if ok==bad: out.append(('args',f'{it}: image_transformation_map({kw}) '+('was accepted' if ok else 'was rejected')))
    return (ev,nd,out)
# ------------------------------------------------------------------ pinhole models
def pinhole(it):
    import mrcal,ref
    lm,sizes=it; ev=nd=0; out=[]
    for size in sizes:
        W,H=size
        for i,zoom in itertools.product((0,1,2),(.5,1.,2.)):
            for cc in (None,(0.,None),(None,0.),(1.,H-2.),(W-2.,1.)):
                m=cam(lm,i,POSES[3],size,zoom)
                intr=m.intrinsics()[1]
                if cc is not None:
                    for a in (0,1):
                        if cc[a] is not None: intr[2+a]=cc[a]
                    m.intrinsics(intrinsics=(lm,intr))
                before=[x.tobytes() for x in (m.intrinsics()[1],m.imagersize(),m.rt_cam_ref())]
                fx,fy,cx,cy=intr[:4]
                e=np.array([(x,y) for x in (0,(W-1)/2.,W-1.) for y in (0,(H-1)/2.,H-1.)])
                fits=[('corners',e[[0,2,6,8]]),('centers-horizontal',e[[1,7]]),('centers-vertical',e[[3,5]]),(None,None)]
                fits+=[(e[list(c)],e[list(c)]) for k in (1,2) for c in itertools.combinations(range(9),k)]+[(e.reshape(3,3,2),e),(e[0],e[:1]),(np.array((cx,cy)),np.array(((cx,cy),)))]
                for fit,pts in fits:
                  for sf,si in (((None,None),(None,.5),(None,1.5)) if fit is not None else ((None,None),(.7,None),(1.3,2.),(None,.5),(None,1.25))):
                    if cc is not None and fit is not None and not isinstance(fit,str): continue
                    kw=dict(fit=fit,scale_focal=sf,scale_image=si); ev+=1
                    w=f'{lm} {intr.tolist()} {size}: pinhole_model_for_reprojection({kw})'
                    try:
                        with np.errstate(all='ignore'): r=mrcal.pinhole_model_for_reprojection(m,**kw); err=None
                    except Exception as ex: r,err=None,ex
                    if before!=[x.tobytes() for x in (m.intrinsics()[1],m.imagersize(),m.rt_cam_ref())]: out.append(('pinhole-modifies',w+' modified the input model'))
                    scale=1. if sf is None else sf
                    if fit is not None:
                        v,ok=directions(m,pts)
                        if not ok.all(): continue                     # not known what these pixels see
                        if (v[:,2]<1e-3).any() :
                            if (v[:,2]<-1e-3).any() and r is not None: out.append(('pinhole-behind',w+f' returned a model {r.intrinsics()[1].tolist()}, but no pinhole can see {pts[v[:,2]<0].tolist()}: they are more than 90 degrees off axis')); nd+=1
                            continue
                        lim=[]
                        for p,f,c,n in ((v[:,0]/v[:,2],fx,cx,W),(v[:,1]/v[:,2],fy,cy,H)):
                            for x in p:
                                if abs(x*f)<1e-6: continue
                                lim.append((n-1-c)/f/x if x>0 else -c/f/x)
                        if not lim: scale=None
                        else:
                            scale=min(lim)
                            if not scale>1e-9:                        # nothing fits
                                if r is not None: out.append(('pinhole-nothing-fits',w+f' returned focal lengths {r.intrinsics()[1][:2].tolist()}')); nd+=1
                                continue
                    nd+=1
                    if r is None: out.append(('pinhole-raises',w+f' raised {err!r}')); continue
                    s=1. if si is None else si
                    got=r.intrinsics()[1]
                    if r.intrinsics()[0]!='LENSMODEL_PINHOLE' or len(got)!=4: out.append(('pinhole-model',w+f' returned a {r.intrinsics()[0]}')); continue
                    ws=[round(W*s),round(H*s)]
                    if list(r.imagersize())!=ws: out.append(('pinhole-size',w+f' has imager {r.imagersize()}, not {ws}'))
                    if not np.allclose(r.rt_cam_ref(),POSES[3],rtol=0,atol=1e-12): out.append(('pinhole-extrinsics',w+' has other extrinsics'))
                    if not np.allclose(got[2:],(np.array((cx,cy))+.5)*s-.5,rtol=0,atol=1e-9) : out.append(('pinhole-center',w+f' has center {got[2:].tolist()}, not {((np.array((cx,cy))+.5)*s-.5).tolist()}'))
                    if scale is None:
                        if not (np.isfinite(got).all() and (got[:2]>0).all()): out.append(('pinhole-focal',w+f' has focal lengths {got[:2].tolist()}'))
                    elif not np.allclose(got[:2],intr[:2]*scale*s,rtol=1e-6): out.append(('pinhole-focal',w+f' has focal lengths {got[:2].tolist()}, not {(intr[:2]*scale*s).tolist()}'))
        m=cam(lm,1,POSES[3],size)
        for kw in (dict(fit='corners',scale_focal=1.),dict(fit='nonsense'),dict(fit='corners '),dict(fit=np.zeros((4,3))),dict(fit='centers-vertical',scale_focal=2.)):
            ev+=1; nd+=1
            try: r=mrcal.pinhole_model_for_reprojection(m,**kw); out.append(('pinhole-args',f'pinhole_model_for_reprojection({kw}) was accepted'))
            except Exception: pass
    return (ev,nd,out)
# ------------------------------------------------------------------ transform
def transform(it):
    import mrcal
    dt,ch,size,lay=it; ev=nd=0; out=[]
    W,H=size
    n=W*H*max(ch,1); hi=250. if dt=='uint8' else 60000. if dt=='uint16' else 1000.
    img=(((np.arange(n)*7919)%1009)/1009.*hi).astype(dt).reshape((H,W)+((ch,) if ch else ()))
    if lay=='cropped': big=np.full((H+5,W+7)+img.shape[2:],99).astype(dt); big[2:-3,4:-3]=img; img=big[2:-3,4:-3]
    keep=img.copy()
    fr=(0,.25,.5,.75)
    xs=np.array([x+f for x in range(-3,W+3) for f in fr]+[-1000,5000.]); ys=np.array([y+f for y in range(-3,H+3) for f in fr]+[-1000,5000.])
    mapxy=np.stack(np.meshgrid(xs,ys),-1).astype(np.float32)
    if lay=='transposed-map': mapxy=np.ascontiguousarray(mapxy.transpose(1,0,2))
    for bv in (0,7,(3,100,200,0)):
        def px(x,y):
            b=np.array(((bv,0,0) if np.isscalar(bv) else bv)[:max(ch,1)],float)     # opencv: a scalar is the first channel
            inb=(x>=0)&(x<W)&(y>=0)&(y<H)
            v=img[np.clip(y,0,H-1),np.clip(x,0,W-1)].astype(float).reshape(x.shape+(max(ch,1),))
            return np.where(inb[...,None],v,b)
        m=mapxy.astype(float); x0,y0=np.floor(m[...,0]).astype(int),np.floor(m[...,1]).astype(int); fx,fy=(m[...,0]-x0)[...,None],(m[...,1]-y0)[...,None]
        want=px(x0,y0)*(1-fx)*(1-fy)+px(x0+1,y0)*fx*(1-fy)+px(x0,y0+1)*(1-fx)*fy+px(x0+1,y0+1)*fx*fy
        if not ch: want=want[...,0]
        for o in (None,np.full(want.shape,88).astype(dt)):
            got=mrcal.transform_image(img,mapxy,borderValue=bv,**({} if o is None else dict(out=o))); ev+=want.size; nd+=want.size
            w=f'transform_image(): {dt} image {img.shape} ({lay}), borderValue={bv}, '+('out given' if o is not None else 'no out')
            if o is not None and (o is not got) and not np.array_equal(o,got): out.append(('transform-out',w+': the result is not in out'))
            if o is not None: got=o
            if got.shape!=want.shape or got.dtype!=np.dtype(dt): out.append(('transform-shape',w+f': returned {got.shape} {got.dtype}')); continue
            e=np.abs(got.astype(float)-want); tol=(.6 if dt!='float32' else .01)
            if e.max()>tol:
                k=np.unravel_index(e.argmax(),e.shape); out.append(('transform-value',w+f': map {mapxy[k[:2]].tolist()} gave {got[k]}, not {want[k]}'))
            if not np.array_equal(img,keep): out.append(('transform-modifies',w+': the input image was modified'))
        if np.isscalar(bv) and bv==0:
            got=mrcal.transform_image(img,mapxy); ev+=1
            if np.abs(got.astype(float)-want).max()>(.6 if dt!='float32' else .01): out.append(('transform-default',f'{dt} {img.shape}: the default border is not 0'))
    return (ev,nd,out)
def ends(it):
    """whole chain: a scene whose brightness is a function of the direction"""
    import mrcal,ref
    lf,lt=it; ev=nd=0; out=[]
    for kf,kt in ((0,0),(1,0),(4,1)):
        mf,mt=cam(lf,1,POSES[kf],(130,100)),cam(lt,1,POSES[kt],(55,40))
        q=grid(130,100); img=(q[...,0]*1.5+q[...,1]*2.5).astype(np.float32)
        mp=mrcal.image_transformation_map(mf,mt)
        got=mrcal.transform_image(img,mp)
        v,ok=directions(mt,grid(55,40))
        p=ref.rotate(mrcal_compose(np.array(POSES[kf],float),ref.rt_invert(np.array(POSES[kt],float)))[:3],v)
        ok&=angle_ok(lf,p)
        with np.errstate(all='ignore'): qf=ref.project(lf,mf.intrinsics()[1],np.where(ok[...,None],p,(0,0,1.)))
        ok&=(qf[...,0]>1)&(qf[...,0]<128)&(qf[...,1]>1)&(qf[...,1]<98)
        want=qf[...,0]*1.5+qf[...,1]*2.5
        ev+=int(ok.sum()); nd+=int(ok.sum())
        if (np.abs(got-want)[ok]>.2).any(): out.append(('chain',f'{lf} -> {lt}, poses {kf,kt}: transformed image is wrong by {np.abs(got-want)[ok].max()}'))
    return (ev,nd,out)
FN=dict(maps=maps,masks=masks,args=args,pinhole=pinhole,transform=transform,ends=ends)
def go(it):
    import warnings; warnings.simplefilter('ignore')
    return FN[it[0]](it[1])
def main(c,b):
    M=QUICKMODELS; items=[]
    rel=[(0,0),(1,0),(0,2),(3,1),(4,3),(5,0),(0,6),(7,0),(8,3),(3,8)]
    if THOROUGH: rel=[(a,b) for a in range(len(POSES)) for b in range(len(POSES))]
    for lf in M:
        for lt in M:
            pairs=[(i,j,kf,kt,z) for i,j in (((1,1),(0,0),(2,1)) if not THOROUGH else ((0,0),(0,1),(1,0),(1,1),(2,1),(1,2))) for kf,kt in rel for z in ((1.,) if not THOROUGH else (1.,2.,.6))]
            for k in range(0,len(pairs),60): items.append(('maps',(lf,lt,pairs[k:k+60])))
    for lf in M:
        for lt in (M if THOROUGH else ['LENSMODEL_PINHOLE','LENSMODEL_STEREOGRAPHIC','LENSMODEL_OPENCV8']):
            items.append(('maps',(lf,lt,[(1,1,a,b,90.) for k in range(len(NEARLY)) for a,b in ((0,k),(k,0))],1)))
    items+=[('masks',x) for x in itertools.product(M if THOROUGH else M[::3],M if THOROUGH else M[::4])]
    items+=[('args',x) for x in itertools.product(M[::2],M[::2])]
    items+=[('pinhole',(lm,[s])) for lm in M for s in (((13,10),(640,480)) if not THOROUGH else ((13,10),(10,13),(640,480),(641,481),(3,3)))]
    items+=[('transform',x) for x in itertools.product(('uint8','uint16','float32'),(0,3),((5,4),(1,1),(2,3)) if not THOROUGH else ((5,4),(1,1),(2,3),(1,7),(9,8),(16,2)),('plain','cropped','transposed-map'))]
    items+=[('ends',x) for x in itertools.product(M,M)]
    ev=nd=0
    for it,r in zip(items,vf.pmap(go,items)):
        if r[0]!='ok': c.violation('crash',f'{it[0]} {str(it[1])[:200]}: {r[1]}',dict(item=repr(it)[:2000])); continue
        n,k,out=r[1]; ev+=n; nd+=k; c.count(it[0],n)
        for key,what in out: c.violation(key,what,dict(kind=it[0],item=repr(it[1])[:2000],what=what))
    for it in items[::max(1,len(items)//12)]: c.sample(dict(kind=it[0],item=repr(it[1])[:160]))
    return dict(evaluations=ev,distinct_nontrivial=nd,exhaustive=True,rule='a case counts if its direction (or requested pixels) is in the valid domain of both models, so that a result is prescribed')
if __name__=='__main__': vf.main(main,'P29','exploration')
