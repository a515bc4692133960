#!/usr/bin/env python3
"""P23: seeding a calibration recovers the geometry whenever the views connect it.

Enumerated: (graph) every pattern of which camera saw which frame, through the camera-pose estimate, the joint frame
poses and both together; (pnp) every board pose of a grid x lens x board size x pattern of rejected corners; (seed) every
visibility pattern of small rigs from pixels all the way to the seed, x ways to give the focal length. Oracle: the true
geometry the observations came from; an error exactly when the views (>= 2 shared frames per link) do not connect it."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf,itertools
import numpy as np
import ref,probs
THOROUGH=os.environ.get('VERIF_TIER')=='thorough'
W,H,SP=4,3,.1
def cams(n): return [np.zeros(6)]+[np.r_[probs.seq((3,),k,.25),probs.seq((3,),10+k,.3)+np.array([-.3*k,.1,0])] for k in range(1,n)]
def frames(n): return [np.r_[probs.seq((3,),40+k,.5),probs.seq((3,),50+k,.3)+np.array([0,0,2.+.3*k])] for k in range(n)]
def compose(a,b): R=ref.R_from_r(a[:3])@ref.R_from_r(b[:3]); return np.vstack((R,ref.R_from_r(a[:3])@b[3:]+a[3:]))
def rt2(rt): return np.vstack((ref.R_from_r(rt[:3]),rt[3:]))
def inv(rt): R=ref.R_from_r(rt[:3]); return np.vstack((R.T,-R.T@rt[3:]))
def connected(pat,n):
    """pat: per frame, the cameras. Which cameras are reached from camera 0 over links of >= 2 shared frames"""
    sh=np.zeros((n,n),int)
    for f in pat:
        for a,b in itertools.permutations(f,2): sh[a,b]+=1
    seen={0}; q=[0]
    while q:
        a=q.pop()
        for b in range(n):
            if sh[a,b]>=2 and b not in seen: seen.add(b); q.append(b)
    return len(seen)==n
def subsets(n): return [tuple(c for c in range(n) if m>>c&1) for m in range(1,1<<n)]
def graph(it):
    """all the patterns [i0,i1) of this shape"""
    import mrcal,mrcal.calibration as cal
    n,pats,perm=it; ev=nd=0; out=[]
    C=cams(n)
    if perm: C=[C[0]]+[C[i] for i in perm]
    F=frames(8)
    for pat in pats:
        ifc=np.array([(f,c) for f,cs in enumerate(pat) for c in cs],np.int32)
        local=np.array([compose(C[c],F[f]) for f,c in ifc]); ok=connected(pat,n); nused=1+max(c for cs in pat for c in cs)
        cfg=dict(Ncameras=n,seen_by=pat,cameras=perm); ev+=1
        i0,l0=ifc.copy(),local.copy()
        if hasattr(cal,'_estimate_camera_poses') and nused==n:
            try: Rt=cal._estimate_camera_poses(local,ifc,W,H,SP); err=None
            except Exception as e: Rt=None; err=e
            if (Rt is not None)!=ok: out.append((cfg,'unconnected cameras, but no error' if not ok else 'connected cameras, but an error: %s'%str(err)[:80]))
            elif ok:
                nd+=1; want=np.array([inv(x) for x in C[1:]]).reshape(-1,4,3)
                if np.size(Rt)!=want.size or np.abs(np.reshape(Rt,want.shape)-want).max(initial=0)>1e-6: out.append((cfg,'the camera poses are wrong'))
        Rcr=np.array([rt2(x) for x in C[1:]]).reshape(-1,4,3)
        rt=mrcal.estimate_joint_frame_poses(local,Rcr,ifc,W,H,SP)
        if rt.shape!=(len(pat),6) or any(np.abs(rt2(rt[f])-rt2(F[f])).max()>1e-6 for f in range(len(pat))): out.append((cfg,'the frame poses are wrong'))
        # views that disagree a little: the estimate lies between them
        if nused>1 and n<=3:
            d=probs.seq((len(local),3),5,1e-3); l2=local.copy(); l2[:,3]+=d
            rt=mrcal.estimate_joint_frame_poses(l2,Rcr,ifc,W,H,SP)
            for f,cs in enumerate(pat):
                k=[i for i in range(len(ifc)) if ifc[i,0]==f]
                m=np.mean([ref.R_from_r(C[ifc[i,1]][:3]).T@d[i] for i in k],axis=0)
                if np.abs(rt2(rt[f])[3]-F[f][3:]-m).max()>1e-6: out.append((cfg,'the frame pose is not the mean of the views')); break
        if not (np.array_equal(i0,ifc) and np.array_equal(l0,local)): out.append((cfg,'the arguments were modified'))
    return ev,nd,out

# ------------------------------------------------------------------ PnP
MODELS={'LENSMODEL_PINHOLE':1,'LENSMODEL_STEREOGRAPHIC':1,'LENSMODEL_OPENCV4':.3,'LENSMODEL_OPENCV8':.3,'LENSMODEL_CAHVOR':1,probs.SPL2:1}
def intr(model,i=0):
    x=probs.intrinsics(model,i); x=x.copy(); x[4:]*=MODELS[model]; return x
MASKS={'none':lambda w,h:[], 'corner':lambda w,h:[(0,0)],'row':lambda w,h:[(0,x) for x in range(w)],'checker':lambda w,h:[(y,x) for y in range(h) for x in range(w) if (x+y)%2],
       'all but six':lambda w,h:[(y,x) for y in range(h) for x in range(w) if not (y<2 and x<3)],'all but five':lambda w,h:[(y,x) for y in range(h) for x in range(w) if not (y<2 and x<3 and x+y<3)],'all':lambda w,h:[(y,x) for y in range(h) for x in range(w)]}
BADW={'weight -1':lambda o:(o[0]+300,o[1]-40,-1.),'weight 0':lambda o:(o[0]-200,17.,0.),'x<0':lambda o:(-1.,-1.,1.),'y<0':lambda o:(o[0],-5.,1.),'x<0 only':lambda o:(-20.,o[1],.5)}
def pnp(it):
    import mrcal
    model,size,mask,bad=it; w,h=size; ev=nd=0; out=[]
    obj=ref.board_shape(w,h,SP,None); I=[intr(model,0),intr(model,1)]
    poses=[np.array([rx,ry,rz,x,y,z]) for rx,ry,rz in itertools.product((-.5,0,.6),(-.4,.2,.5),(0,1.5,-3.)) for x,y,z in ((0,0,1.2),(.3,-.2,1.5),(-.4,.25,2.2))]
    ifc=np.array([(i,i%2) for i in range(len(poses))],np.int32); obs=np.ones((len(poses),h,w,3))
    for i,p in enumerate(poses):
        q=ref.project(model,I[i%2],ref.transform(np.r_[p[:3],np.zeros(3)],obj-obj.reshape(-1,3).mean(0))+p[3:]); obs[i,...,:2]=q
    true=[np.vstack((ref.R_from_r(p[:3]),p[3:]-ref.R_from_r(p[:3])@obj.reshape(-1,3).mean(0))) for p in poses]
    keep=[i for i in range(len(poses)) if (obs[i,...,:2]>1).all()]
    ifc,obs,true=ifc[keep],obs[keep],[true[i] for i in keep]
    M=MASKS[mask](w,h)
    for i in range(len(obs)):
        for y,x in M: obs[i,y,x]=BADW[bad](obs[i,y,x])
    cfg=dict(model=model,board=size,rejected=mask,how=bad); good=w*h-len(M)>=6
    for how in ('tuples','models'):
        arg=[(model,I[0]),(model,I[1])] if how=='tuples' else [mrcal.cameramodel(intrinsics=(model,I[i]),imagersize=(1000,800)) for i in (0,1)]
        ev+=len(obs); o0=obs.copy()
        try: Rt=mrcal.estimate_monocular_calobject_poses_Rt_tocam(ifc,obs,SP,arg)
        except Exception as e:
            if good: out.append((cfg,'error: %s'%str(e)[:90]))
            continue
        if not good: out.append((cfg,'too few corners: no error')); continue
        nd+=len(obs)
        if not np.array_equal(o0,obs): out.append((cfg,'the observations were modified'))
        if Rt.shape!=(len(obs),4,3): out.append((cfg,'shape')); continue
        e=[np.abs(Rt[i]-true[i]).max() for i in range(len(obs))]
        if not max(e)<2e-3: out.append((dict(cfg,pose=int(np.argmax(e)),err=float(max(e)),bad=int(sum(np.array(e)>2e-3))),'the board pose is wrong'))
    return ev,nd,out

# ------------------------------------------------------------------ the full seed
FOC={'scalar':lambda n,f:f,'list of one':lambda n,f:[f],'tuple of one':lambda n,f:(f,),'array of one':lambda n,f:np.array([f]),
     'list':lambda n,f:[f]*n,'array':lambda n,f:np.array([f]*n),'wrong length':lambda n,f:[f]*(n+1),'numpy scalar':lambda n,f:np.float64(f),'0-dimensional':lambda n,f:np.array(f)}
def seed(it):
    import mrcal
    n,pats,foc,isz=it; ev=nd=0; out=[]; C=cams(n); F=frames(6); w,h=5,4; f=900.
    sizes=[(1000+30*i,800-20*i) for i in range(n)]
    arg=np.array(sizes) if isz=='array' else sizes if isz=='list' else tuple(np.array(s) for s in sizes)
    obj=ref.board_shape(w,h,SP,None); I=[np.array([f,f,(s[0]-1)/2,(s[1]-1)/2]) for s in sizes]
    for pat in pats:
        ifc=np.array([(k,c) for k,cs in enumerate(pat) for c in cs],np.int32); obs=np.ones((len(ifc),h,w,3))
        for i,(k,c) in enumerate(ifc): obs[i,...,:2]=ref.project('LENSMODEL_STEREOGRAPHIC',I[c],ref.transform(C[c],ref.transform(F[k],obj)))
        if (obs[...,:2]<0).any(): raise Exception('harness: out of view')
        cfg=dict(Ncameras=n,seen_by=pat,focal=foc,imagersizes=isz); ev+=1; o0=obs.copy()
        fe=FOC[foc](n,f); fe0=list(np.ravel(fe))
        ok=connected(pat,n) and not(foc=='wrong length')
        try: r=mrcal.seed_stereographic(arg,fe,ifc,obs,SP)
        except Exception as e:
            if ok: out.append((cfg,'connected views, but an error: %s'%str(e)[:80]))
            continue
        if not ok: out.append((cfg,'unconnected cameras, but no error' if foc!='wrong length' else 'wrong number of focal lengths, but no error')); continue
        nd+=1; ii,rc,rf=r
        if np.shape(ii)!=(n,4) or np.abs(ii-np.array(I)).max()>1e-9: out.append((cfg,'intrinsics'))
        if np.shape(rc)!=(n-1,6) or n>1 and max(np.abs(rt2(rc[i])-rt2(C[i+1])).max() for i in range(n-1))>3e-3: out.append((cfg,'the camera poses of the seed are wrong'))
        if np.shape(rf)!=(len(pat),6) or max(np.abs(rt2(rf[i])-rt2(F[i])).max() for i in range(len(pat)))>3e-3: out.append((cfg,'the frame poses of the seed are wrong'))
        if not np.array_equal(o0,obs) or list(np.ravel(fe))!=fe0: out.append((cfg,'the arguments were modified'))
    return ev,nd,out
def go(it): return dict(graph=graph,pnp=pnp,seed=seed)[it[0]](it[1])
def chunks(l,n): return [l[i:i+n] for i in range(0,len(l),n)]
def main(c,b):
    items=[]
    def pats(n,f,multi=False): 
        g=(itertools.combinations_with_replacement if multi else lambda s,k: itertools.product(s,repeat=k))(subsets(n),f); return list(g)
    for n,f,multi in [(1,1,0),(1,3,0),(2,1,0),(2,2,0),(2,3,0),(2,4,0),(3,2,0),(3,3,0),(3,4,0),(4,2,0),(4,3,1),(4,4,1)]+([(4,3,0),(4,4,0),(3,5,1),(5,4,1)] if THOROUGH else []):
        items+=[('graph',(n,p,None)) for p in chunks(pats(n,f,multi),60)]
    for perm in itertools.permutations((1,2,3)): items.append(('graph',(4,[((0,i),(0,i),(i,j),(i,j),(j,k),(j,k)) if i<j<k else tuple(tuple(sorted(x)) for x in ((0,i),(0,i),(i,j),(i,j),(j,k),(j,k))) for i,j,k in itertools.permutations((1,2,3))],perm)))
    for m,s,k,bd in itertools.product(MODELS,[(3,2),(4,3),(5,4),(2,4)]+([(10,9),(7,2),(3,6)] if THOROUGH else []),MASKS,BADW):
        if k=='none' and bd!='weight -1': continue
        items.append(('pnp',(m,s,k,bd)))
    for n,f,multi in [(1,1,0),(1,2,0),(2,2,0),(2,3,0),(3,2,0),(3,3,1)]+([(3,3,0),(3,4,1),(4,3,1)] if THOROUGH else []):
        items+=[('seed',(n,p,'scalar','list')) for p in chunks(pats(n,f,multi),10)]
    for n,fo,isz in itertools.product((1,2,3),FOC,('list','array','tuple of arrays')): items.append(('seed',(n,[(tuple(range(n)),)*2,(tuple(range(n)),)*3],fo,isz)))
    ev=nd=0
    for it,r in zip(items,vf.pmap(go,items,chunk=1)):
        if r[0]!='ok': c.violation('%s:crash'%it[0],'%s %s: %s'%(it[0],str(it[1])[:200],str(r[1])[-300:]),dict(item=it,crash=str(r[1])[-600:])); continue
        n,d,out=r[1]; ev+=n; nd+=d; c.count(it[0],n)
        for cfg,what in out: c.violation('%s:%s'%(it[0],what),'%s: %s'%(what,cfg),dict(kind=it[0],what=what,config=cfg))
    c.sample(dict(example_pattern='per frame, the cameras that saw it: ((0,1),(0,1),(1,2),(1,2))',masks=list(MASKS),rejected_as=list(BADW)))
    c.sample(dict(models=list(MODELS),focal=list(FOC)))
    return dict(evaluations=ev,distinct_nontrivial=nd,exhaustive=True,
      rule='every visibility pattern of up to 4 cameras x 4 frames (every multiset of frames for 4 cameras x 4); every pose of a grid x lens x board x rejected-corner pattern; nontrivial: connected or solvable, and compared with the truth')
if __name__=='__main__': vf.main(main,'P23','exploration')
