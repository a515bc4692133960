"""Deterministic small optimization problems, built from a specification. Used by the checks of
the optimization layer; the values are fixed sequences, so any problem can be rebuilt from its
specification alone."""
import numpy as np, itertools, copy
import ref

KW={'LENSMODEL_PINHOLE':[],'LENSMODEL_STEREOGRAPHIC':[],'LENSMODEL_LONLAT':[],'LENSMODEL_LATLON':[],
 'LENSMODEL_OPENCV4':[.1,-.05,.002,-.003],'LENSMODEL_OPENCV5':[.1,-.05,.002,-.003,.03],
 'LENSMODEL_OPENCV8':[.1,-.05,.002,-.003,.03,.05,-.02,.01],
 'LENSMODEL_OPENCV12':[.1,-.05,.002,-.003,.03,.05,-.02,.01,.004,-.003,.002,.005],
 'LENSMODEL_CAHVOR':[.01,-.02,.003,.05,.01],
 'LENSMODEL_CAHVORE_linearity=0.37':[.01,-.02,.003,.05,.01,.02,.01,.005],
 'LENSMODEL_CAHVORE_linearity=0.00':[.01,-.02,.003,.05,.01,.02,.01,.005],
 'LENSMODEL_CAHVORE_linearity=-0.50':[.01,-.02,.003,.05,.01,.02,.01,.005]}
SPL3='LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=5_Ny=4_fov_x_deg=100'
SPL2='LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=4_Ny=3_fov_x_deg=100'
KW[SPL3]=list(.05*np.cos(1+np.arange(40)*1.7))
KW[SPL2]=list(.05*np.cos(1+np.arange(24)*1.7))
MODELS=list(KW)

def seq(shape,k,amp=1.):
    """a fixed, irregular sequence in (-amp,amp); k selects which"""
    n=int(np.prod(shape)) if shape else 1
    i=np.arange(1,n+1)
    x=(i*0.6180339887498949+(k+1)*0.7548776662466927+np.sin(i*12.9898+k*78.233)*0.37)%1.
    return (amp*(2*x-1)).reshape(shape)

def intrinsics(model,i=0,W=1000,H=800):
    c=[600.+13*i,610.-11*i,(W-1)/2.+7*i-3,(H-1)/2.-5*i+2]
    if 'STEREOGRAPHIC' in model and 'SPLINED' not in model or 'LONLAT' in model or 'LATLON' in model: pass
    k=np.array(KW[model])*(1+.1*i)
    return np.r_[c,k]

SELKEYS=('core','dist','ext','frames','warp','reg','unity')
class Prob:
    """spec: dict of
      model, sens: list of (ci,ce), Nf, boards: list of (f,isens) in order,
      W,H, Np, Npf, pts: list of (ip,isens), tri: list of lists of isens,
      warp: give calobject_warp?, sel: dict core,dist,ext,frames,warp,reg,unity,
      wb: {(iobs,iy,ix):weight}, wp:{iobs:weight}, wt:{iobs:weight}, noise"""
    def __init__(s,model='LENSMODEL_PINHOLE',sens=((0,-1),(1,0)),Nf=2,boards=None,W=3,H=2,Np=0,Npf=0,pts=None,tri=(),
                 warp=True,sel=None,wb=None,wp=None,wt=None,noise=.7,Nci=None,Nce=None,spacing=.2,order=True,stationary=True,vary=0):
        S=dict(core=1,dist=1,ext=1,frames=1,warp=1,reg=1,unity=0); S.update(sel or {})
        s.model=model; s.sens=list(sens); s.spacing=spacing; s.vary=vary
        Nci=Nci if Nci is not None else 1+max([c for c,e in sens],default=-1)
        Nce=Nce if Nce is not None else 1+max([e for c,e in sens],default=-1)
        if boards is None: boards=[(f,i) for f in range(Nf) for i in range(len(sens))]
        if pts is None:    pts=[(p,i) for p in range(Np) for i in range(len(sens))]
        s.boards=list(boards); s.pts=list(pts); s.tri=[list(t) for t in tri]
        n=ref.nparams(model)
        sel=dict(S)
        s.ifci=np.array([(f,)+tuple(sens[i]) for f,i in boards],np.int32).reshape(-1,3)
        s.ipci=np.array([(p,)+tuple(sens[i]) for p,i in pts],np.int32).reshape(-1,3)
        s.itci=np.array([(j,)+tuple(sens[i]) for j,t in enumerate(tri) for i in t],np.int32).reshape(-1,3)
        s.imagersizes=np.array([(1000+20*i,800-10*i) for i in range(Nci)],np.int32).reshape(-1,2)
        s.intr=np.array([intrinsics(model,i+vary,*s.imagersizes[i]) for i in range(Nci)]).reshape(-1,n)
        s.ext=np.zeros((Nce,6))
        for i in range(Nce):
            s.ext[i]=np.r_[seq((3,),3+i+10*vary,.12),seq((3,),30+i+10*vary,.15)+np.array([-.8*(i+1),.1*i,.05])]
        s.frames=np.zeros((Nf,6))
        for i in range(Nf):
            s.frames[i]=np.r_[seq((3,),60+i+10*vary,.3),seq((3,),90+i+10*vary,.3)+np.array([-.2,-.1,3.5+.3*i])]
        s.points=seq((Np,3),120+vary,.7)+np.array([0,0,5.])
        s.warp=np.array([.012,-.017])*(1+.1*vary) if warp else None
        s.L=ref.Layout(model,Nci,Nce,Nf,Np,Npf,len(s.boards),W,H,len(s.pts),[len(t) for t in s.tri],sel)
        s.sel=sel; s.W,s.H=W,H
        # observations: what is seen, plus a fixed error
        s.wb=wb or {}; s.wp=wp or {}; s.wt=wt or {}
        s.noise=noise
        s.observe(noise)
    def observe(s,noise):
        s.ob=np.ones((len(s.boards),s.H,s.W,3)); s.op=np.ones((len(s.pts),3))
        L0=copy.copy(s.L); 
        if s.boards:
            obj=ref.board_shape(s.W,s.H,s.spacing,s.warp)
            for i,(f,ci,ce) in enumerate(s.ifci):
                p=ref.transform(s.frames[f],obj)
                if ce>=0: p=ref.transform(s.ext[ce],p)
                s.ob[i,...,:2]=ref.project(s.model,s.intr[ci],p)
            s.ob[...,:2]+=seq(s.ob[...,:2].shape,7,noise)
            s.ob[...,2]=1+.3*seq(s.ob[...,2].shape,8)
        for (i,y,x),w in s.wb.items(): s.ob[i,y,x,2]=w
        for i,(ip,ci,ce) in enumerate(s.ipci):
            p=s.points[ip]
            if ce>=0: p=ref.transform(s.ext[ce],p)
            s.op[i,:2]=ref.project(s.model,s.intr[ci],p)
        if len(s.op):
            s.op[:,:2]+=seq((len(s.op),2),9,noise)
            s.op[:,2]=1+.3*seq((len(s.op),),10)
        for i,w in s.wp.items(): s.op[i,2]=w
        n=sum(len(t) for t in s.tri)
        s.ot=np.ones((n,3)); s.tri_v=np.zeros((n,3))
        tp=seq((len(s.tri),3),11,.8)+np.array([0,0,4.])
        for i,(ip,ci,ce) in enumerate(s.itci):
            p=tp[ip]
            if ce>=0: p=ref.transform(s.ext[ce],p)
            s.ot[i,:2]=ref.project(s.model,s.intr[ci],p)
        s.ot[:,:2]+=seq((n,2),12,1.+60*bool(noise)) if noise else 0
        for i,w in s.wt.items(): s.ot[i,2]=w
    def kw(s):
        """a fresh set of mrcal.optimize() arguments"""
        k=dict(intrinsics=s.intr.copy(),lensmodel=s.model,imagersizes=s.imagersizes.copy(),
               rt_cam_ref=s.ext.copy(),rt_ref_frame=s.frames.copy(),points=s.points.copy(),
               Npoints_fixed=s.L.Npf,
               do_optimize_intrinsics_core=bool(s.sel['core']),do_optimize_intrinsics_distortions=bool(s.sel['dist']),
               do_optimize_extrinsics=bool(s.sel['ext']),do_optimize_frames=bool(s.sel['frames']),
               do_optimize_calobject_warp=bool(s.sel['warp']),do_apply_regularization=bool(s.sel['reg']),
               do_apply_regularization_unity_cam01=bool(s.sel['unity']),do_apply_outlier_rejection=False)
        if s.boards: k.update(observations_board=s.ob.copy(),indices_frame_camintrinsics_camextrinsics=s.ifci.copy(),calibration_object_spacing=s.spacing)
        if len(s.pts): k.update(observations_point=s.op.copy(),indices_point_camintrinsics_camextrinsics=s.ipci.copy())
        if len(s.itci): k.update(observations_point_triangulated=s.ot.copy(),indices_point_triangulated_camintrinsics_camextrinsics=s.itci.copy())
        if s.warp is not None: k.update(calobject_warp=s.warp.copy())
        return k
    def values(s): return s.intr,s.ext,s.frames,s.points,s.warp
    def rays(s):
        import mrcal
        if len(s.ot)==0: return np.zeros((0,3))
        return np.array([mrcal.unproject(s.ot[i,:2],s.model,s.intr[ci]) for i,(ip,ci,ce) in enumerate(s.itci)])
    def resid(s,b=None):
        """documented residuals at the full-scale state b (default: at the nominal values)"""
        v=s.values()
        if b is not None: v=s.L.unpack(b,*v)
        if not hasattr(s,'_rays'): s._rays=s.rays()
        return ref.residuals(s.L,*v,s.ob,s.ifci,s.op,s.ipci,s._rays,s.ot[:,2]<=0,s.itci,s.imagersizes,s.spacing)
    def state(s): return s.L.pack(*s.values())

def sels(keys=SELKEYS):
    for v in itertools.product((0,1),repeat=len(keys)): yield dict(zip(keys,v))
