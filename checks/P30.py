#!/usr/bin/env python3
"""P30: model differencing reports zero for equal models and the true offset otherwise; alignments recover what generated them.

Enumerated: (implied) rigid motions x ranges x grids x ways some of the points can be bad (NaN or infinite unprojections,
bad, zero or uneven weights, a focus region); (diff) pairs and triples of models x poses x every way to choose the
transformation x every form of the distance argument; (stereo) pairs of pairs; (points, vectors) point sets of every rank,
generated, mirrored or noisy x motions x scales x weights x memory layouts. Oracle: lib/ref.py and the motion that generated
the data; for noisy data the largest eigenvalue of Horn's quaternion matrix, which no rotation can beat."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf,itertools,warnings
import numpy as np
THOROUGH=os.environ.get('VERIF_TIER')=='thorough'
R3=[(0,0,0),(.02,-.01,.015),(0,0,.4),(.1,.2,-.1),(-.25,.05,.1),(1e-6,0,0)]
T3=[(0,0,0),(.05,-.02,.1),(-.3,.2,-.1),(0,0,.02)]
def norm(v): return v/np.sqrt((v*v).sum(-1,keepdims=True))
def deg(Ra,Rb):
    """angle between two rotations, without the loss of precision of acos()"""
    D=np.asarray(Ra)@np.asarray(Rb).T
    return float(np.arctan2(np.linalg.norm([D[2,1]-D[1,2],D[0,2]-D[2,0],D[1,0]-D[0,1]]),np.trace(D)-1))
# ------------------------------------------------------------------ implied_Rt10
def implied(it):
    import mrcal,ref
    (gw,gh),zs,lead,rr,out=*it,[]
    ev=nd=0
    W,H=640,480
    q0=np.stack(np.meshgrid(np.linspace(0,W-1,gw),np.linspace(0,H-1,gh)),-1)
    v0=norm(np.concatenate(((q0-(319.5,239.5))/500.,np.ones((gh,gw,1))),-1))
    for r in rr:
      for t in ([(0,0,0)] if zs is None else T3):
        rt=np.r_[r,t].astype(float)
        for bad in ('none','focus','focus-edge','zero-weights','nan-weights','inf-weights','uneven-weights','nan-p0','inf-p0','nan-v1','nan-p0-weights'):
            if zs is None: p0=v0.copy()
            else:
                p0=np.stack([v0*z for z in zs]) if (len(zs)>1 or lead) else v0*zs[0]
                if lead==2: p0=p0[:,None]
            if zs is None and lead: p0=np.stack((v0,)*lead)
            # one transformation must take all the ranges to the same pixels, so with a translation the ranges see different v1
            if t!=(0,0,0) and zs is not None and len(zs)>1: continue
            v1=norm(ref.transform(rt,(v0 if zs is None else v0*zs[0])))
            kw={}; w=np.ones(p0.shape[:-1])
            yy,xx=np.mgrid[:gh,:gw]; hit=((xx*7+yy*5)%4==0)
            if bad=='focus': kw.update(focus_center=(300.,200.),focus_radius=230.); v1=np.where((np.hypot(q0[...,0]-300,q0[...,1]-200)<230)[...,None],v1,norm(v1+(.3,.1,0)))
            if bad=='focus-edge':
                # the points exactly at the radius are not inside
                d=np.hypot(q0[...,0],q0[...,1]); R=np.sort(d.ravel())[d.size//2]
                kw.update(focus_center=np.zeros(2),focus_radius=R*(1+1e-12)); v1=np.where((d<=R)[...,None],v1,norm(v1+(.3,.1,0)))
            if 'zero-weights'==bad: w[...,hit]=0; v1[hit]=norm(v1[hit]+(.5,0,0))
            if 'nan-weights'==bad: w[...,hit]=np.nan; v1[hit]=norm(v1[hit]+(.5,0,0))
            if 'inf-weights'==bad: w[...,hit]=np.inf; v1[hit]=norm(v1[hit]+(.5,0,0))
            if 'uneven-weights'==bad: w=w*(1+((xx*3+yy*11)%5))*.01
            if bad.startswith('nan-p0'): p0[...,hit,1]=np.nan
            if bad=='inf-p0': p0[...,hit,2]=np.inf
            if bad=='nan-v1': v1[hit]=np.nan
            if 'weights' in bad: kw['weights']=w
            sel=np.ones((gh,gw),bool) if 'focus' not in bad else np.hypot(q0[...,0]-300,q0[...,1]-200)<230 if bad=='focus' else d<=R
            if (sel&~(hit if 'focus' not in bad and bad not in('none','uneven-weights') else ~sel)).sum()<4: continue       # not enough to fit
            keep=[x.copy() for x in (p0,v1,w)]
            what=f'{(gw,gh)} grid, ranges {zs}, {lead} leading dimensions, motion {rt.tolist()}, {bad}'; ev+=1
            try: Rt=mrcal.implied_Rt10__from_unprojections(q0,p0,v1,atinfinity=zs is None,**kw)
            except Exception as e: out.append(('implied-raises',f'{what}: {e!r}')); continue
            nd+=1
            if not all(np.array_equal(a,b,equal_nan=True) for a,b in zip(keep,(p0,v1,w))): out.append(('implied-modifies',f'{what}: the inputs were modified'))
            if Rt.shape!=(4,3) or not np.isfinite(Rt).all(): out.append(('implied-shape',f'{what}: returned {Rt}')); continue
            if zs is None and np.any(Rt[3]): out.append(('implied-translation',f'{what}: nonzero translation {Rt[3]} at infinity'))
            # effect on what is seen
            ok=np.isfinite(v1).all(-1)&~(hit if bad not in ('none','focus','focus-edge') else np.zeros_like(hit))
            if bad=='focus': ok&=np.hypot(q0[...,0]-300,q0[...,1]-200)<230
            if bad=='focus-edge': ok&=np.hypot(q0[...,0],q0[...,1])<=R
            pp=v0 if zs is None else v0*zs[0]
            err=np.linalg.norm(norm(pp@Rt[:3].T+Rt[3])-v1,axis=-1)[ok].max()
            if err>3e-3: out.append(('implied-fit',f'{what}: residual {err} rad with {Rt.tolist()}'))
            if zs is None and deg(Rt[:3],ref.R_from_r(rt[:3]))>3e-4: out.append(('implied-motion',f'{what}: rotation off by {deg(Rt[:3],ref.R_from_r(rt[:3]))} rad'))
    return ev,nd,out
# ------------------------------------------------------------------ projection_diff
PZ=[(0,0,0,0,0,0),(.02,-.03,.05,.1,-.2,.05),(0,0,.3,-.4,.1,.2),(-.1,.05,0,0,0,0)]
MODELS=[('LENSMODEL_PINHOLE',(500,510,315.,242.)),('LENSMODEL_PINHOLE',(505,508,318.,240.)),('LENSMODEL_OPENCV4',(500,510,315.,242.,-.02,.01,.001,-.002)),
  ('LENSMODEL_OPENCV8',(490,500,320.,250.,.02,.01,.001,-.002,.001,.02,.01,.001)),('LENSMODEL_STEREOGRAPHIC',(400,410,315.,242.)),('LENSMODEL_LONLAT',(400,410,315.,242.)),('LENSMODEL_LONLAT',(400,410,331.,242.)),
  ('LENSMODEL_LATLON',(400,410,315.,242.)),('LENSMODEL_CAHVOR',(500,510,315.,242.,.05,-.04,.01,.02,.01)),('LENSMODEL_CAHVORE_linearity=0.37',(500,510,315.,242.,.05,-.04,.01,.02,.01,0,0,0)),
  ('LENSMODEL_CAHVORE_linearity=0.37',(500,510,315.,242.,.05,-.04,.01,.02,.01,.003,-.002,.001)),('LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=4_Ny=4_fov_x_deg=150',None)]
def mk(i,pose,size=(640,480)):
    import mrcal
    lm,d=MODELS[i]
    if d is None: d=np.r_[400,410,315.,242.,.01*np.cos(1+np.arange(32)*1.7)]
    return mrcal.cameramodel(intrinsics=(lm,np.array(d,float)),imagersize=size,rt_cam_ref=np.array(pose,float))
def noncentral(i): return len(MODELS[i][1] or ())==12 and 'CAHVORE' in MODELS[i][0] and any(MODELS[i][1][-3:])
def intr0(i,m):
    lm,x=m.intrinsics(); x=x.copy()
    if 'CAHVORE' in lm: x[-3:]=0
    return lm,x
def comp(a,b):
    import ref
    return np.r_[ref.r_from_R(ref.R_from_r(a[:3])@ref.R_from_r(b[:3])),ref.transform(a,b[3:])]
def unproj(lm,x,q):
    import mrcal,ref
    v=mrcal.unproject(np.ascontiguousarray(q),lm,x,normalize=True)
    ok=np.isfinite(v).all(-1)
    with np.errstate(all='ignore'): ok&=(np.abs(ref.project(lm,x,np.where(ok[...,None],v,(0,0,1.)))-q).max(-1)<1e-6)
    return v,ok
DIST=[None,1.,3.,np.float64(2.5),[4.],[1.,10.],(2.,5.,30.),np.array((.7,8.)),1e6,7]
def stamp(m): return m.intrinsics()[1].tobytes()+m.rt_cam_ref().tobytes()+m.imagersize().tobytes()
def diff(it):
    import mrcal,ref
    idx,grids=it; ev=nd=0; out=[]
    for poses in ((0,)*len(idx),(1,2,3)[:len(idx)],(0,3,1)[:len(idx)]):
        mods=[mk(i,PZ[p]) for i,p in zip(idx,poses)]; st=[stamp(m) for m in mods]
        given=np.array((.01,.02,-.03,.2,.1,-.05))
        ways=[('only',dict(intrinsics_only=True)),('extrinsics',dict(focus_radius=0))]+([('given',dict(implied_Rt10=ref.Rt(given)))] if len(idx)==2 else [])
        ways+=[('only0',dict(intrinsics_only=True,focus_radius=0)),('fit',dict(focus_radius=1e4)),('fitdefault',{}),('fitregion',dict(focus_center=(250.,300.),focus_radius=150.))]
        for (gw,gh),D,(name,kw) in itertools.product(grids,DIST,ways):
            nc=any(noncentral(i) for i in idx)
            if name.startswith('fit'):
                ghh=gh if gh is not None else int(round(480/640*gw)); X,Y=np.meshgrid(np.linspace(0,639,gw),np.linspace(0,479,ghh)); cc=kw.get('focus_center',(319.5,239.5))
                if (np.hypot(X-cc[0],Y-cc[1])<kw.get('focus_radius',80)-1e-6).sum()<4: continue                   # not enough to fit
            what=f'projection_diff({[MODELS[i][0]+str(MODELS[i][1]) for i in idx]}, poses {[PZ[p] for p in poses]}, grid {gw,gh}, distance={D}, {name})'; ev+=1
            try:
                with np.errstate(all='ignore'): got=mrcal.projection_diff(mods,gridn_width=gw,gridn_height=gh,distance=D,use_uncertainties=False,**kw)
            except Exception as e:
                if nc and D is not None: nd+=1
                else: out.append(('diff-raises',f'{what} raised {e!r}'))
                continue
            nd+=1
            if nc and D is not None: out.append(('diff-noncentral',f'{what}: accepted a noncentral model at a finite range')); continue
            if st!=[stamp(m) for m in mods]: out.append(('diff-modifies',f'{what} modified a model')); st=[stamp(m) for m in mods]
            dl,df,q0,Rt=got
            ghh=gh if gh is not None else int(round(480/640*gw))
            wq=np.stack(np.meshgrid(np.linspace(0,639,gw),np.linspace(0,479,ghh)),-1)
            if q0.shape!=wq.shape or np.abs(q0-wq).max()>1e-9: out.append(('diff-grid',f'{what}: the grid is wrong')); continue
            Ds=[None] if D is None else list(np.atleast_1d(D).astype(float))
            sh=((len(Ds),) if np.ndim(D) else ())+(ghh,gw)
            if dl.shape!=sh or (df is not None and df.shape!=sh+(2,)) or (df is None)!=(len(idx)>2): out.append(('diff-shape',f'{what}: shapes {dl.shape}, {None if df is None else df.shape}')); continue
            if Rt.shape!=((4,3) if len(idx)==2 else (len(idx)-1,4,3)): out.append(('diff-Rt-shape',f'{what}: Rt10 has shape {Rt.shape}')); continue
            Rts=[Rt] if len(idx)==2 else list(Rt)
            fit=name.startswith('fit')
            for k in range(1,len(idx)):
                if name in('only','only0'): w=np.zeros(6)
                elif name=='extrinsics': w=comp(np.array(PZ[poses[k]]),ref.rt_invert(np.array(PZ[poses[0]])))
                elif name=='given': w=given
                else: continue
                wR=ref.Rt(w)
                if deg(Rts[k-1][:3],wR[:3])>1e-9 or (D is not None and np.abs(Rts[k-1][3]-wR[3]).max()>1e-9): out.append(('diff-Rt',f'{what}: Rt10 is {Rts[k-1].tolist()}, not {wR.tolist()}'))
            lm0,x0=intr0(idx[0],mods[0]); v,ok=unproj(lm0,x0,wq)
            tot=[]; allok=ok.copy()
            for k in range(1,len(idx)):
                lm,x=intr0(idx[k],mods[k]); qs=[]
                for d in Ds:
                    p=v@Rts[k-1][:3].T
                    if d is not None: p=p*d+Rts[k-1][3]
                    with np.errstate(all='ignore'):
                        qs.append(ref.project(lm,x,np.where(ok[...,None],p,(0,0,1.)))); allok&=(p[...,2]>.02*np.linalg.norm(p,axis=-1))
                        if 'SPLINED' in lm: allok&=np.linalg.norm(p[...,:2],axis=-1)<np.tan(np.radians(55))*p[...,2]
                tot.append(np.stack(qs)-wq)
            tot=np.stack(tot)
            with np.errstate(all='ignore'):
                wl=np.sqrt((tot[0]**2).sum(-1)) if len(idx)==2 else np.sqrt((tot**2).sum(-1).mean(0))
                gl=dl.reshape(wl.shape); m=np.broadcast_to(allok,wl.shape)
                bad=(np.abs(gl-wl)[m]>1e-6*(1+np.abs(wl[m])))
                if bad.any() or not np.isfinite(gl[m]).all(): out.append(('diff-length',f'{what}: a difference is off by {np.nanmax(np.abs(gl-wl)[m])} pixels'))
                if df is not None and (np.abs(df.reshape(tot[0].shape)-tot[0])[m]>1e-6*(1+np.abs(tot[0][m]))).any(): out.append(('diff-vector',f'{what}: the difference vectors are wrong'))
            same=len({MODELS[i] for i in idx})==1
            if same and (name!='given') and not (name=='extrinsics' and len(set(poses))>1):
                # the distance to a NaN unprojection is not zero
                if np.abs(gl[np.broadcast_to(ok,gl.shape)]).max()>(1e-6 if not fit else .15): out.append(('diff-same',f'{what}: the difference of equal models is {np.nanmax(gl)}'))
            if fit and same:
                for R in Rts:
                    if deg(R[:3],np.eye(3))>3e-4: out.append(('diff-same-fit',f'{what}: equal models are rotated by {deg(R[:3],np.eye(3))}'))
            if fit and len(idx)==2 and D is None and {MODELS[i][0] for i in idx}=={'LENSMODEL_LONLAT'} and not same:
                # shifting the longitude is a rotation around y
                th=(MODELS[idx[1]][1][2]-MODELS[idx[0]][1][2])/400.; w=ref.R_from_r(np.array((0,-th,0)))
                if np.nanmax(gl)>.15: out.append(('diff-compensated',f'{what}: the difference is {np.nanmax(gl)}, but a rotation makes it 0'))
                if deg(Rts[0][:3],w)>3e-4: out.append(('diff-compensated-R',f'{what}: rotation {Rts[0][:3].tolist()}, not {w.tolist()}'))
    return ev,nd,out
def diffargs(it):
    import mrcal
    out=[]; ev=nd=0
    a,b,c=mk(0,PZ[0]),mk(1,PZ[1]),mk(0,PZ[0],(641,480))
    for mods,kw in (([a],{}),([],{}),([a,c],{}),([a,b,c],{}),([a,b,a],dict(implied_Rt10=np.vstack((np.eye(3),np.zeros(3)))))):
        ev+=1; nd+=1
        try: mrcal.projection_diff(mods,gridn_width=5,use_uncertainties=False,**kw); out.append(('diff-args',f'{len(mods)} models {kw}: accepted'))
        except Exception: pass
    return ev,nd,out
def stereo(it):
    import mrcal,ref
    idx,=it; ev=nd=0; out=[]
    for poses in ((0,1,0,1),(0,1,2,3),(1,0,3,2)):
        mods=[mk(i,PZ[p]) for i,p in zip(idx,poses)]; pairs=((mods[0],mods[1]),(mods[2],mods[3]))
        for D in (None,1.,5.,50.):
            st=[stamp(m) for m in mods]; ev+=1
            nc=any(noncentral(i) for i in idx)
            what=f'stereo_pair_diff({[MODELS[i][0] for i in idx]}, poses {[PZ[p] for p in poses]}, distance={D})'
            try:
                with np.errstate(all='ignore'): dl,df,q0,f=mrcal.stereo_pair_diff(pairs,gridn_width=7,gridn_height=5,distance=D)
            except Exception as e:
                if not (nc and D is not None): out.append(('stereo-raises',f'{what} raised {e!r}'))
                nd+=1; continue
            nd+=1
            if nc and D is not None: out.append(('stereo-noncentral',f'{what}: accepted a noncentral model at a finite range')); continue
            if st!=[stamp(m) for m in mods]: out.append(('stereo-modifies',f'{what} modified a model'))
            wq=np.stack(np.meshgrid(np.linspace(0,639,7),np.linspace(0,479,5)),-1)
            if q0.shape!=wq.shape or np.abs(q0-wq).max()>1e-9: out.append(('stereo-grid',what)); continue
            qs=[]; allok=np.ones(wq.shape[:2],bool)
            for k in (0,1):
                lm,x=intr0(idx[2*k],mods[2*k]); v,ok=unproj(lm,x,wq); allok&=ok
                rt=comp(np.array(PZ[poses[2*k+1]]),ref.rt_invert(np.array(PZ[poses[2*k]])))
                p=ref.rotate(rt[:3],np.where(ok[...,None],v,(0,0,1.)))
                if D is not None: p=p*D+rt[3:]
                allok&=(p[...,2]>.02)&(np.linalg.norm(p[...,:2],axis=-1)<np.tan(np.radians(55))*p[...,2])
                lm,x=intr0(idx[2*k+1],mods[2*k+1])
                with np.errstate(all='ignore'): qs.append(ref.project(lm,x,p))
            w=qs[1]-qs[0]
            if df.shape!=w.shape or (np.abs(df-w)[allok]>1e-6*(1+np.abs(w[allok]))).any(): out.append(('stereo-diff',f'{what}: off by {np.abs(df-w)[allok].max() if df.shape==w.shape else df.shape}'))
            if np.abs(dl-np.sqrt((df**2).sum(-1)))[allok].max()>1e-9: out.append(('stereo-length',what))
    return ev,nd,out
# ------------------------------------------------------------------ procrustes
def sets():
    e=np.eye(3)
    S=[('0',np.zeros((0,3)),'none'),('1',e[:1]*.7,'none'),('2',np.array(((.1,.2,.3),(.4,-.2,.5))),'vec'),
       ('coincident',np.array([(.3,.2,-.4)]*5),'none'),('collinear3',np.array(((0,0,0),(1,2,3),(2,4,6.))),'none'),('collinear4',np.array(((-1,.5,2),(0,0,0),(1,-.5,-2),(.3,-.15,-.6))),'none'),
       ('collinear-off',np.array([(1,1,1)+k*np.array((.2,-.1,.4)) for k in (-2,-1,0,3)]),'vec'),
       ('triangle',np.array(((0,0,0),(1,0,0),(0,2.,0))),'pts'),('planar',np.array([(x,y,0) for x in (-1,0,2.) for y in (-1,1.5)]),'pts'),('planar-off',np.array([(x,y,3+.2*x) for x in (-1,0,2.) for y in (-1,1.5)]),'pts'),
       ('tetra',np.array(((0,0,0),(1,0,0),(0,2,0),(0,0,3.))),'pts'),('cloud',np.array([(np.cos(3*k),np.sin(5*k+1)*2,np.cos(7*k+2)*.5) for k in range(9)]),'pts'),
       ('cube',np.array(list(itertools.product((-1,1.),repeat=3))),'pts'),('3-axes',e,'pts')]
    return S
def horn(a,b,w):
    """largest attainable sum w a.Rb, over rotations"""
    M=(b*w[:,None]).T@a
    (xx,xy,xz),(yx,yy,yz),(zx,zy,zz)=M
    K=np.array(((xx+yy+zz,yz-zy,zx-xz,xy-yx),(yz-zy,xx-yy-zz,xy+yx,zx+xz),(zx-xz,xy+yx,-xx+yy-zz,yz+zy),(xy-yx,zx+xz,yz+zy,-xx-yy+zz)))
    return np.linalg.eigvalsh(K)[-1]
def rank2(p,w=None):
    if len(p)==0: return False
    if w is not None: p=p[w>0]
    if len(p)<2: return False
    s=np.linalg.svd(p,compute_uv=False)
    return len(s)>1 and s[1]>1e-9*s[0]
LAY=('c','f','neg','rows')
def lay(p,how):
    if how=='c': return np.ascontiguousarray(p)
    if how=='f': return np.asfortranarray(p)
    if how=='neg': return np.ascontiguousarray(p[::-1])[::-1]
    b=np.full((max(2*len(p),1),5),77.); b[:2*len(p):2,1:4]=p; return b[:2*len(p):2,1:4]
def procrustes(it):
    import mrcal,ref
    name,p,kind,what=it; ev=nd=0; out=[]
    for r,t,scale,noise,(l0,l1),wk in itertools.product([(0,0,0),(.1,-.2,.3),(0,0,np.pi/2),(np.pi,0,0),(2.,-1.5,.5),(0,1e-9,0)],([(0,0,0),(5,-3,2.)] if what=='points' else [(0,0,0)]),
          (1e-5,1e-2,1.,300.,1e5) if what=='points' else (1.,),(0,1e-3,'mirror'),[(a,a) for a in LAY]+([('c','f'),('rows','c')]),(None,'ones','uneven','tiny','huge','zeros','one-outlier','allzero','strided')):
        if not THOROUGH and (l0,l1)!=('c','c') and (scale not in(1.,300.) or wk in('tiny','huge')): continue
        p1=p*scale; N=len(p)
        if what=='vectors':
            if N==0: p1=p
            else:
                n=np.linalg.norm(p,axis=-1,keepdims=True)
                if (n==0).any(): p1=p[n[:,0]>0]; n=n[n[:,0]>0]; p1=p1/n
                else: p1=p/n
            N=len(p1)
        if wk=='strided' and N<2: continue                            # one element: numpysane looks at the stride all the same
        if (t==(5,-3,2.)) and scale<1e-3: continue                    # lost in rounding
        rt=np.r_[r,t].astype(float)
        src=p1*(-1,1,1) if noise=='mirror' else p1
        p0=(ref.transform(rt,src) if what=='points' else ref.rotate(rt[:3],src)) if N else p1.copy()
        exact=noise==0
        if noise==1e-3:
            p0=p0+scale*1e-3*np.cos(np.arange(N*3)*1.3+.5).reshape(N,3)
            if what=='vectors' and N: p0=norm(p0)
        w=None
        if wk is not None: w=np.ones(N)
        if wk=='uneven': w=1.+np.arange(N)%3
        if wk=='tiny': w=w*1e-13
        if wk=='huge': w=w*1e9
        if wk=='zeros': w[::2]=0
        if wk=='allzero': w[:]=0
        if wk=='one-outlier' and N:
            w[N//2]=0; p0=p0.copy(); p0[N//2]=(p0[N//2]+scale*np.array((3,-2,1.))) if what=='points' else norm(p0[N//2]+np.array((.5,.2,-.9)))
        if wk=='strided': w=np.repeat(w,2)[::2]
        use=np.ones(N,bool) if w is None else w>0
        ww=np.ones(N) if w is None else w
        if what=='points':
            a,b=p0[use],p1[use]
            c0,c1=((ww[use,None]*a).sum(0)/ww[use].sum(),(ww[use,None]*b).sum(0)/ww[use].sum()) if use.any() else (0,0)
            da,db=a-c0,b-c1
        else: da,db=p0[use],p1[use]
        good=rank2(db)
        s=np.linalg.svd(db,compute_uv=False) if good else None
        if noise==1e-3:
            if not good: continue                                     # noise decides the rank
            if s[1]<.05*s[0]: continue
        if noise=='mirror' and not (len(s)==3 and s[2]<.9*s[1] if good else True): continue      # no unique best rotation
        if noise=='mirror' and not good: exact=False
        ev+=1
        A0,A1=lay(p0,l0),lay(p1,l1); f=mrcal.align_procrustes_points_Rt01 if what=='points' else mrcal.align_procrustes_vectors_R01
        d=f'align_procrustes_{what}: {name} ({N}), motion {rt.tolist()}, scale {scale}, noise {noise}, layout {l0,l1}, weights {wk}'
        try: got=f(A0,A1) if w is None else f(A0,A1,w)
        except Exception as e:
            if N<2: nd+=1; continue                                      # not enough points. An error says so too
            out.append((f'{what}-raises',f'{d}: {e!r}')); continue
        nd+=1
        sh=(4,3) if what=='points' else (3,3)
        if got.shape!=sh: out.append((f'{what}-shape',f'{d}: returned shape {got.shape}')); continue
        if not good:
            if np.any(got!=0): out.append((f'{what}-degenerate',f'{d}: there is no unique answer, but it returned {got.tolist()}'))
            continue
        if not np.isfinite(got).all() or not np.any(got): out.append((f'{what}-failed',f'{d}: returned {got.tolist()}')); continue
        R=got[:3]
        if np.abs(R@R.T-np.eye(3)).max()>1e-9 or np.linalg.det(R)<0: out.append((f'{what}-rotation',f'{d}: {R.tolist()} is not a rotation')); continue
        cond=s[0]/s[1]
        if exact and noise==0:
            rel=1e-7*cond
            if deg(R,ref.R_from_r(rt[:3]))>rel: out.append((f'{what}-motion',f'{d}: off by {deg(R,ref.R_from_r(rt[:3]))} rad'))
            elif what=='points' and np.abs(got[3]-rt[3:]).max()>1e-7*(scale*5+np.abs(rt[3:]).max()): out.append((f'{what}-translation',f'{d}: translation {got[3].tolist()}'))
        elif wk in(None,'ones','zeros','one-outlier','strided','tiny','huge') or what=='vectors':
            # the best rotation of the points that have weight
            best=horn(da,db,ww[use]); g=(ww[use,None]*da*(db@R.T)).sum()
            if best-g>1e-9*abs(ww[use]@(np.linalg.norm(da,axis=1)*np.linalg.norm(db,axis=1))): out.append((f'{what}-optimum',f'{d}: a rotation with a better fit exists ({g} < {best})'))
            if what=='points' and np.abs(c0-R@c1-got[3]).max()>1e-9*(scale*10+np.abs(rt[3:]).max()): out.append((f'{what}-optimum-t',f'{d}: translation {got[3].tolist()}, best {(c0-R@c1).tolist()}'))
    return ev,nd,out
def broadcast(it):
    """many alignments in one call are the single ones"""
    import mrcal,ref
    out=[]; ev=nd=0
    p=np.array([(np.cos(3*k),np.sin(5*k+1)*2,np.cos(7*k+2)*.5) for k in range(9)])
    for what in ('points','vectors'):
        f=mrcal.align_procrustes_points_Rt01 if what=='points' else mrcal.align_procrustes_vectors_R01
        P1=np.stack([norm(p*(1+k,1,1)) for k in range(3)]); P0=np.stack([ref.rotate(np.array((.1*k,.2,.3)),P1[k]) for k in range(3)])
        for s0,s1,w in ((P0,P1,None),(P0[:,None],P1[None],None),(P0[0],P1,None),(P0,P1,np.ones(9)),(P0,P1,1.+np.arange(27).reshape(3,9)%4)):
            b=np.broadcast_shapes(s0.shape[:-2],s1.shape[:-2],() if w is None else w.shape[:-1])
            for tr in (False,True):
                a0,a1=(np.asfortranarray(s0),np.asfortranarray(s1)) if tr else (np.ascontiguousarray(s0),np.ascontiguousarray(s1))
                got=f(a0,a1) if w is None else f(a0,a1,w); ev+=1; nd+=1
                S0,S1=np.broadcast_to(s0,b+s0.shape[-2:]),np.broadcast_to(s1,b+s1.shape[-2:]); ww=None if w is None else np.broadcast_to(w,b+w.shape[-1:])
                for i in np.ndindex(b):
                    x=f(S0[i].copy(),S1[i].copy()) if w is None else f(S0[i].copy(),S1[i].copy(),ww[i].copy())
                    if got.shape[:len(b)]!=b or np.abs(got[i]-x).max()>1e-9: out.append((f'{what}-broadcast',f'{s0.shape} {s1.shape} weights {None if w is None else w.shape}: slice {i} differs')); break
    return ev,nd,out
FN=dict(implied=implied,diff=diff,diffargs=diffargs,stereo=stereo,procrustes=procrustes,broadcast=broadcast)
def go(it):
    warnings.simplefilter('ignore'); return FN[it[0]](it[1])
def main(c,b):
    items=[]
    grids=[(9,7),(12,5),(3,3)] if not THOROUGH else [(9,7),(12,5),(3,3),(20,15),(4,9)]
    for g,(zs,lead),r in itertools.product(grids,[(None,0),((4.,),0),((1.,),1),((2.,20.),0),((3.,),2),(None,2)],R3): items.append(('implied',(g,zs,lead,[r])))
    n=len(MODELS); allp=[(i,j) for i in range(n) for j in range(n)]
    for i,j in allp:
        if THOROUGH or i==j or (i+j)%3==0 or {MODELS[i][0],MODELS[j][0]}=={'LENSMODEL_LONLAT'}: items.append(('diff',((i,j),[(7,5),(9,None)] if THOROUGH else [(7,5)])))
    for t in [(0,0,0),(0,1,2),(3,2,8),(5,6,7),(11,4,11),(9,10,8),(2,2,3)]: items.append(('diff',(t,[(6,None)])))
    items.append(('diff',((0,1),[(8,None),(2,2),(1,1),(1,5)])))
    items.append(('diffargs',0))
    for i,j in allp: items.append(('stereo',((i,j,j if (i+j)%2 else i,(i*5+j)%n),)))
    for name,p,kind in sets():
        for what in ('points','vectors'): items.append(('procrustes',(name,p,kind,what)))
    items.append(('broadcast',0))
    ev=nd=0
    for it,r in zip(items,vf.pmap(go,items,chunk=1)):
        if r[0]!='ok': c.violation('%s:crash'%it[0],'%s %s: %s'%(it[0],str(it[1])[:200],str(r[1])[-300:]),dict(item=str(it)[:500],crash=str(r[1])[-600:])); continue
        n,d,out=r[1]; ev+=n; nd+=d; c.count(it[0],n)
        for key,what in out: c.violation(key,what,dict(kind=it[0],what=what,item=repr(it[1])[:800]))
    for it in items[::max(1,len(items)//10)]: c.sample(dict(kind=it[0],item=repr(it[1])[:160]))
    return dict(evaluations=ev,distinct_nontrivial=nd,exhaustive=True,rule='every combination of the listed alternatives; a case counts if a result (or a refusal) is prescribed for it')
if __name__=='__main__': vf.main(main,'P30','exploration')
