#!/usr/bin/python3
"""P32: mrcal-calibrate-cameras turns tables of detected corners into models that reproduce the cameras that made them.

Enumerated: every supported lens x number of cameras x regularization; every combination of the solver options x kind of seed
(none, --focal per camera, seeds kept or solved); every set of missing views (each view; each pair; each camera; each frame);
every placement of an outlier over the views; initial outliers by level or weight; the forms of the seed globs and of the image
globs; board sizes; every conflict of arguments. The real tool, each run in a process and a scratch directory of its own.
Oracle: the scene, its projections by lib/ref.py, and a direct reading of the tool's documentation."""
import os,sys,itertools,shutil,tempfile,json,warnings,re,fnmatch
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import vf; import numpy as np
import P28,ref,probs
from P28 import run,scratch
THOROUGH=os.environ.get('VERIF_TIER')=='thorough'
SPL='LENSMODEL_SPLINED_STEREOGRAPHIC_order=%d_Nx=6_Ny=5_fov_x_deg=110'
KX={'LENSMODEL_PINHOLE':(),'LENSMODEL_STEREOGRAPHIC':(),'LENSMODEL_LONLAT':(),'LENSMODEL_LATLON':(),
    'LENSMODEL_OPENCV4':(-.12,.05,.001,-.002),'LENSMODEL_OPENCV5':(-.12,.05,.001,-.002,.01),
    'LENSMODEL_OPENCV8':(-.12,.05,.001,-.002,.01,.02,.01,.005),'LENSMODEL_OPENCV12':(-.12,.05,.001,-.002,.01,.02,.01,.005,.001,-.002,.001,.002),
    'LENSMODEL_CAHVOR':(.01,-.02,.002,.03,-.02)}
SIZE=(1000,800)

def scene(S):
    """the true cameras, poses and frames, and what the cameras see"""
    lens,N,W,H,F=S['lens'],S['N'],S.get('W',7),S.get('H',6),S.get('F',8)
    sp=S.get('spacing',.1)
    n=ref.nparams(lens)
    intr=[]
    for i in range(N):
        Z=imager(i,S.get('mixed'))
        core=[620.+15*i,(620.+15*i if 'SPLINED' in lens else 612.-9*i),(Z[0]-1)/2.,(Z[1]-1)/2.]
        if 'SPLINED' not in lens: core[2]+=6*i-5; core[3]+=4-5*i
        k=np.array(KX[lens])*(1+.1*i) if lens in KX else .02*np.cos(1+i+np.arange(n-4)*1.7)
        intr.append(np.r_[core,k])
    rt=np.zeros((N,6))
    for i in range(1,N): rt[i]=np.r_[probs.seq((3,),3+i,.06),probs.seq((3,),30+i,.05)+np.array([-.22*i,.03*i,.02])]; rt[i,3:]*=sp/.1
    # frame 0..F-1: tilted boards, over the imager
    fr=np.zeros((F,6))
    for f in range(F):
        a=2*np.pi*f/F
        R=np.array((.45*np.cos(a)+.1,.45*np.sin(2*a+.3),.25*np.sin(3*a)))
        c=np.array((.16*np.cos(a),.13*np.sin(a),.95+.12*np.cos(2*a)))*(sp*max(W,H))/.7+np.array((.09*(N-1)*sp/.1,0,0))
        c[:2]+=0
        fr[f,:3]=R; fr[f,3:]=c-ref.rotate(R,np.array(((W-1)/2.*sp,(H-1)/2.*sp,0)))
    warp=np.array(S.get('warp',(0,0)),float)
    b=ref.board_shape(W,H,sp,warp)
    if b.shape!=(H,W,3): b=b.reshape(H,W,3)
    q=np.zeros((F,N,H,W,2))
    for f,i in itertools.product(range(F),range(N)):
        q[f,i]=ref.project(lens,intr[i],ref.transform(rt[i],ref.transform(fr[f],b)))
    q+=S.get('noise',0)*probs.seq(q.shape,5)
    return np.array(intr),rt,fr,b,q

CAM=['L','right_','c3x','d.','e-']
FRAMES=[3,12,7,105,40,41,9,1000,77,8,501,66]
def image(i,f): return f'{CAM[i]}{FRAMES[f]:0{4 if i!=1 else 2}d}.jpg'
def imager(i,mixed=False): return (SIZE[0]+(40*i if mixed else 0),SIZE[1]-(0 if not mixed else 10*i))
def table(S,q,Z,out,weights,missing):
    """the corner file; what each corner's weight should be"""
    F,N,H,W,_=q.shape
    L=['# filename x y '+('weight' if weights else 'level') if S.get('column',1) else '# filename x y']
    wt=np.zeros(q.shape[:4]); got=q.copy()
    order=[(f,i) for i in range(N) for f in range(F)]
    if S.get('shuffle'): order=[order[(k*7+3)%len(order)] for k in range(len(order))] if len(order)%7 else order[::-1]
    for f,i in order:
        if (f,i) in missing:
            if missing[f,i]=='dash': L.append(image(i,f)+' - - -')
            continue
        for j,k in itertools.product(range(H),range(W)):
            x,y=q[f,i,j,k]
            if (f,i,j,k) in out: d=out[f,i,j,k]; x,y=x+d[0],y+d[1]
            got[f,i,j,k]=x,y
            n=f*131+i*17+j*7+k
            off=not(0<=x<=imager(i,S.get('mixed'))[0]-1 and 0<=y<=imager(i,S.get('mixed'))[1]-1) or (f,i,j,k) in S.get('initial',())
            if not S.get('column',1): v=''; w=1.; off=False
            elif weights: w=(1.,.5,.25)[n%3]; v=repr(w)
            else: l=(0,0,1,2)[n%4]; w=.5**l; v=str(l)
            if off: v=('-','-1','0')[n%3] if weights else ('-','-1')[n%2]; w=0
            wt[f,i,j,k]=w
            L.append(f'{image(i,f)} {float(x)!r} {float(y)!r} {v}'.rstrip())
    return '\n'.join(L)+'\n',wt,got
def perturb(m,i):
    """a seed off the truth"""
    import mrcal
    k=m.intrinsics(); v=k[1].copy(); v[:2]*=1+.01*(i%2*2-1); v[4:]*=.8
    if i: v[2:4]+=np.array((2.,-1.5))
    o=mrcal.cameramodel(m); o.intrinsics(intrinsics=(k[0],v),imagersize=m.imagersize())
    o.rt_cam_ref(m.rt_cam_ref()+.01*probs.seq((6,),i+50))
    return o
def mats(rt): return ref.R_from_r(rt[:3]),rt[3:]

def slurp():
    o={}
    for r,_,fs in os.walk('.'):
        for f in fs: p=os.path.relpath(os.path.join(r,f),'.'); o[p]=open(p,'rb').read()
    return o
def solve(S):
    import mrcal
    bad=[]; B=lambda k,w: bad.append((k,w))
    lens,N=S['lens'],S['N']; opt=S.get('opt',()); seed=S.get('seed')
    weights=S.get('weights',0); missing=S.get('missing',{}); out=S.get('out',{})
    intr,rt,fr,b,q=scene(S)
    F,_,H,W,_=q.shape; sp=S.get('spacing',.1)
    D=S.get('outdir'); Z=[imager(i,S.get('mixed')) for i in range(N)]
    with scratch() as d:
        txt,wt,got=table(S,q,None,out,weights,missing)
        open('corners.vnl','w').write(txt)
        if D: os.mkdir(D)
        disk=S.get('disk')
        if disk:
            pre={'prefix':'im/','dir':'im/','cwd':''}[disk]
            if pre: os.mkdir('im')
            for i in range(N):
                mine=sorted((f for f in range(F) if (f,i) not in missing),key=lambda f:FRAMES[f])
                z=S.get('disksize',{}).get(i,Z[i])
                mrcal.save_image(pre+image(i,mine[0]),np.zeros((z[1],z[0]),np.uint8))
        a=['--corners-cache','corners.vnl']
        if disk: a+={'prefix':['--image-path-prefix','im'],'dir':['--image-directory','im'],'cwd':[]}[disk]
        if S.get('sizearg',seed is None and not disk): a+=['--imagersize',str(SIZE[0]),str(SIZE[1])]
        a+=['--object-width-n',str(W)]
        if H!=W or S.get('heightarg'): a+=['--object-height-n',str(H)]
        if sp!=.1 or S.get('spacingarg',1): a+=['--object-spacing',repr(sp)]
        if weights: a+=['--corners-cache-has-weights']
        seeds=[]
        if seed is None:
            a+=['--lensmodel',lens,'--focal',S.get('focal','600')]
        else:
            Rg=np.r_[.3,-.2,1.1,4.,-2.,9.]
            for i in range(N):
                m=mrcal.cameramodel(intrinsics=(lens,intr[i]),imagersize=np.array(Z[i],np.int32),
                                    rt_cam_ref=np.r_[ref.r_from_R(ref.R_from_r(rt[i,:3])@ref.R_from_r(Rg[:3])),ref.transform(rt[i],Rg[3:])])
                if seed.get('perturb'): m=perturb(m,i)
                m.write(f'seed{i}.cameramodel'); seeds.append(m)
            seeds=[mrcal.cameramodel(f'seed{i}.cameramodel') for i in range(N)]
            g=[f'seed{i}.cameramodel' for i in range(N)]
            a+=['--seed',{'list':','.join(g),'glob':'seed*.cameramodel','mixed':','.join(g[:1]+(['seed[1-9].cameramodel'] if N>1 else []))}[seed.get('form','list')]]
            if seed.get('lensarg'): a+=['--lensmodel',lens]
        a+=list(opt)
        if D: a+=['--outdir',D]
        a+=[{'star':CAM[i]+'*.jpg','q':CAM[i]+'*','abs':'*/'+CAM[i]+'*.jpg'}[S.get('globs','star')] for i in range(N)]
        before=slurp()
        rc,so,se=run('mrcal-calibrate-cameras',a,'',timeout=500)
        after=slurp()
        want=[(f'camera{i//2}-{i%2}' if '--pairs' in opt else f'camera-{i}')+'.cameramodel' for i in range(N)]
        if D: want=[D+'/'+x for x in want]
        new=sorted(x for x in after if x not in before)
        if any(after.get(x)!=before[x] for x in before): B('changed','the run changed one of its inputs')
        if S.get('refuse'):
            if rc==0: B('accepted',f'{S["refuse"]}: exit 0')
            if rc<0: B('crash',f'{S["refuse"]}: signal {-rc}')
            if new: B('refused-wrote',f'{S["refuse"]}: wrote {new}')
            return 1,bad
        if rc!=0: B('failed',f'exit {rc}: {se[-400:]}'); return 1,bad
        if new!=sorted(want): B('files',f'wrote {new}, not {want}'); return 1,bad
        M=[mrcal.cameramodel(x) for x in want]
    R={}
    reg='--skip-regularization' not in opt
    warpopt='--skip-calobject-warp-solve' not in opt
    fixI='--skip-intrinsics-solve' in opt; fixE='--skip-extrinsics-solve' in opt
    nm=int(wt[tuple(np.array([k for k in itertools.product(range(F),range(N))]).T)].astype(bool).sum())
    V=[(f,i) for f in range(F) for i in range(N) if (f,i) not in missing]
    order=sorted(V,key=lambda v:(FRAMES[v[0]],v[1]))
    # frames that nobody saw are not there
    seen=sorted({f for f,i in V},key=lambda f:FRAMES[f])
    for i,m in enumerate(M):
        if m.intrinsics()[0]!=lens: B('lens',f'camera {i}: {m.intrinsics()[0]}')
        if tuple(m.imagersize())!=Z[i]: B('imagersize',f'camera {i}: {m.imagersize()}')
        oi=m.optimization_inputs()
        if oi is None: B('no-inputs',f'camera {i} has no optimization_inputs'); return 1,bad
        if m.icam_intrinsics()!=i: B('icam',f'camera {i}: icam_intrinsics {m.icam_intrinsics()}')
        if not np.allclose(m.intrinsics()[1],oi['intrinsics'][i],rtol=1e-8,atol=1e-9): B('inputs-intrinsics',f'camera {i}: intrinsics are not those of its optimization_inputs')
        e=m.rt_cam_ref()
        if i==0 and np.any(e): B('reference',f'camera 0 is at {e}')
        if i and not np.allclose(e,oi['rt_cam_ref'][i-1],atol=1e-9): B('inputs-extrinsics',f'camera {i}: {e}, {oi["rt_cam_ref"][i-1]}')
    o=M[0].optimization_inputs()
    ob=o['observations_board']
    if ob.shape!=(len(V),H,W,3): B('observations',f'shape {ob.shape}'); return 1,bad
    ii=np.array([(seen.index(f),i,i-1) for f,i in order])
    if not np.array_equal(o['indices_frame_camintrinsics_camextrinsics'],ii): B('indices',f'{o["indices_frame_camintrinsics_camextrinsics"].tolist()}'); return 1,bad
    if list(o['imagepaths'])!=[('' if not disk else pre)+image(i,f) for f,i in order]: B('imagepaths',f'{list(o["imagepaths"])}')
    if list(map(tuple,o['imagersizes']))!=Z: B('imagersizes',f'{o["imagersizes"]}')
    G=np.array([got[v] for v in order]); WT=np.array([wt[v] for v in order])
    use=WT>0
    if not np.array_equal(ob[...,:2][use],G[use]): B('corners',f'the corners are not those given: off by {np.abs(ob[...,:2]-G)[use].max()}')
    pl=np.zeros(G.shape[:3],bool)
    for n,v in enumerate(order):
        for k in out:
            if k[:2]==v: pl[n][k[2:]]=True
    rej='--skip-outlier-rejection' not in opt
    w=ob[...,2]
    if np.any(w[~use]>0): B('initial-outliers','a corner given as an outlier is used')
    exp=WT.copy()
    if rej: exp[pl]=-1
    kept=exp>0
    # a warped board is not fitted by the first, flat solve: that one may reject corners. And so may a fit pulled by a gross outlier
    loose=rej and (bool(np.any(S.get('warp',0))) or S.get('tol')=={} or bool(out))
    if loose:
        n=kept.sum(); kept&=w>0
        if not np.array_equal(np.abs(w[exp>0]),exp[exp>0]): B('weights','rejecting outliers changed the size of a weight')
        if kept.sum()<(.95 if out else .8)*n and S.get('tol')!={}: B('weights',f'{n-kept.sum()} of {n} good corners were rejected')
    if not np.array_equal(w[kept],exp[kept]):
        B('weights',f'{int((w[kept]!=exp[kept]).sum())} corners with a weight different from the given: {w[kept][w[kept]!=exp[kept]][:3]}, {exp[kept][w[kept]!=exp[kept]][:3]}')
    if rej and np.any(w[pl&use]>0): B('outlier-kept',f'{int((w[pl&use]>0).sum())} of {int((pl&use).sum())} gross outliers are used')
    want=dict(do_optimize_intrinsics_core=not fixI and 'SPLINED' not in lens,do_optimize_intrinsics_distortions=not fixI,do_optimize_extrinsics=not fixE,do_optimize_frames=True,
              do_optimize_calobject_warp=warpopt,do_apply_regularization=reg,do_apply_outlier_rejection=rej,lensmodel=lens,calibration_object_spacing=sp)
    for k,v in want.items():
        if o[k]!=v: B('option-'+k,f'{k}={o[k]}, wanted {v}')
    cw=o['calobject_warp']
    if warpopt!=(cw is not None): B('warp',f'calobject_warp={cw}')
    # the solution, against the corners given
    ext=np.vstack((np.zeros((1,6)),o['rt_cam_ref'].reshape(-1,6)))
    bb=ref.board_shape(W,H,sp,cw if cw is not None else np.zeros(2)).reshape(H,W,3)
    E=np.array([ref.project(lens,o['intrinsics'][i],ref.transform(ext[i],ref.transform(o['rt_ref_frame'][seen.index(f)],bb))) for f,i in order])-G
    R['fit']=float(np.abs(E[kept]).max())
    # against the truth
    dq=[];dr=[];dt=[]
    for i in range(N):
        p=ref.transform(rt[i],ref.transform(fr[:,None,None],b))
        mask=np.array([(f,i) not in missing for f in range(F)])
        e=ref.project(lens,o['intrinsics'][i],p[mask])-ref.project(lens,intr[i],p[mask])
        dq.append(np.abs(e[wt[mask,i]>0]).max() if mask.any() else 0)
        dR=ref.r_from_R(ref.R_from_r(ext[i,:3]).T@ref.R_from_r(rt[i,:3])); dr.append(np.linalg.norm(dR)); dt.append(np.linalg.norm(ext[i,3:]-rt[i,3:]))
    R.update(q=max(dq),r=max(dr),t=max(dt),warp=None if cw is None else [float(x) for x in cw])
    if fixI:
        for i in range(N):
            if not np.array_equal(o['intrinsics'][i],seeds[i].intrinsics()[1]): B('intrinsics-moved',f'--skip-intrinsics-solve: camera {i} is not the seed')
    if fixE:
        for i in range(N):
            s0=ref.Rt(seeds[0].rt_cam_ref()); si=ref.Rt(seeds[i].rt_cam_ref())
            Rr=si[:3]@s0[:3].T; tr=si[3]-Rr@s0[3]
            if np.abs(ref.R_from_r(ext[i,:3])-Rr).max()>1e-9 or np.abs(ext[i,3:]-tr).max()>1e-9: B('extrinsics-moved',f'--skip-extrinsics-solve: camera {i} moved from the seed')
    if 'SPLINED' in lens and seed is None:
        c=o['intrinsics'][:,:4]
        if np.any(c[:,2:]!=(np.array(Z)-1)/2.) or np.ptp(c[:,:2]): B('splined-core',f'{c.tolist()}')
    m=re.search(r'RMS reprojection error: ([0-9.]+) pixels',so); rms=float(m.group(1)) if m else None
    if rms is None: B('report','no RMS error reported')
    mo=re.search(r'Noutliers: (\d+) out of (\d+)',so)
    if rej:
        if not mo: B('report','no outliers reported')
        elif (int(mo.group(1)),int(mo.group(2)))!=(int((w<=0).sum()),w.size): B('report-outliers',f'{mo.group(0)}, {int((w<=0).sum())} of {w.size}')
    elif mo: B('report','outliers reported with --skip-outlier-rejection')
    reg_=[m.valid_intrinsics_region() for m in M]
    R['region']=[None if r is None else len(r) for r in reg_]
    for i,r in enumerate(reg_):
        if not fixI and 'SPLINED' not in lens and r is None: B('no-region',f'camera {i}: no valid-intrinsics region')
        if fixI and r is not None: B('region-fixed',f'camera {i}: a valid-intrinsics region without solving')
        if r is not None and len(r):
            if r.min()<-.5 or np.any(r.max(0)>np.array(Z[i])): B('region-outside',f'camera {i}: {r.min(0)}..{r.max(0)}')
            if np.abs(r[0]-r[-1]).max(): B('region-open',f'camera {i}')
    R['rms']=rms
    tol=S.get('tol')
    if tol:
        for k,v in tol.items():
            if not R[k]<=v: B('off-'+k,f'{k}={R[k]:.3g}, at most {v}')
    return (1,bad) if not S.get('debug') else (1,bad,R)

# ---------------------------------------------------------------- conflicting arguments
def conflict(S):
    """every way to run the tool with arguments that cannot be: nothing may be written, and it has to say so"""
    import mrcal
    bad=[]; name,change=S['name'],S['change']
    N=S.get('N',2); lens='LENSMODEL_OPENCV4'
    intr,rt,fr,b,q=scene(dict(lens=lens,N=N))
    with scratch() as d:
        open('corners.vnl','w').write(table(dict(lens=lens),q,None,{},0,{})[0])
        for i in range(4):
            l=S.get('lens',{}).get(i,lens); k=intr[i%N] if l==lens else np.r_[intr[i%N][:4],KX[l]]
            mrcal.cameramodel(intrinsics=(l,k),imagersize=np.array(S.get('size',{}).get(i,SIZE),np.int32),rt_cam_ref=rt[i%N]).write(f'seed{i}.cameramodel')
        A=dict(corners=['--corners-cache','corners.vnl'],size=['--imagersize',str(SIZE[0]),str(SIZE[1])],w=['--object-width-n','7'],h=['--object-height-n','6'],
               sp=['--object-spacing','.1'],lens=['--lensmodel',lens],focal=['--focal','600'],images=[c+'*.jpg' for c in CAM[:N]])
        if S.get('seeded'):
            A.pop('lens'); A.pop('focal'); A['seed']=['--seed',','.join(f'seed{i}.cameramodel' for i in range(N))]
        A.update(change)
        im=A.pop('images'); a=[x for v in A.values() for x in v]+im
        before=slurp()
        rc,so,se=run('mrcal-calibrate-cameras',a,'',timeout=300)
        after=slurp()
        if S.get('ok'):
            if rc!=0: bad.append(('control',f'{name}: exit {rc}: {se[-300:]}'))
        else:
            if rc==0: bad.append(('conflict-accepted',f'{name}: exit 0'))
            elif rc<0: bad.append(('conflict-crash',f'{name}: signal {-rc}: {se[-200:]}'))
            if rc!=0 and not (se+so).strip(): bad.append(('conflict-silent',f'{name}: exit {rc} with no message'))
            new=sorted(x for x in after if x not in before)
            if new: bad.append(('conflict-wrote',f'{name}: wrote {new}'))
        if any(after.get(x)!=before[x] for x in before): bad.append(('changed',f'{name}: the run changed one of its inputs'))
    return 1,bad
def conflicts():
    C=[]
    def add(name,N=2,seeded=0,ok=0,**change): C.append(dict(name=name,N=N,seeded=seeded,ok=ok,change=change))
    sd=lambda *n: ['--seed',','.join(f'seed{i}.cameramodel' for i in n)]
    add('control',ok=1); add('control, seeded',seeded=1,ok=1)
    add('neither --focal nor --seed',focal=[]); add('--focal and --seed',seed=sd(0,1)); add('--focal and --seed, no lens',seed=sd(0,1),lens=[])
    for f in ('0','-1','600,-600','0,600','a','600,','',',','600,a','600,600,600','nan'): add(f'--focal {f!r}',focal=['--focal='+f])
    add('--focal 600,610',focal=['--focal','600,610'],ok=1); add('--focal with 1 of 3',N=3,focal=['--focal','600,610'])
    C.append(dict(name='no --lensmodel',change=dict(lens=[])))
    for l in ('LENSMODEL_NOPE','PINHOLE','LENSMODEL_OPENCV','LENSMODEL_CAHVORE','LENSMODEL_SPLINED_STEREOGRAPHIC',''): C.append(dict(name=f'--lensmodel {l!r}',change=dict(lens=['--lensmodel',l])))
    for o in ('--skip-extrinsics-solve','--skip-intrinsics-solve'): add(o+' without --seed',o=[o])
    for N in (1,3): add(f'--pairs with {N}',N=N,o=['--pairs']); add(f'--pairs with {N}, seeded',N=N,seeded=1,o=['--pairs'])
    for n in ((0,),(0,1,2),(0,1,2,3)): add(f'{len(n)} seeds for 2 cameras',seeded=1,seed=sd(*n))
    add('a seed that is not there',seeded=1,seed=['--seed','seed0.cameramodel,nope.cameramodel']); add('a glob without a match',seeded=1,seed=['--seed','seed0.cameramodel,nope*'])
    add('a seed that is not a model',seeded=1,seed=['--seed','seed0.cameramodel,corners.vnl'])
    for i in (0,1):
        C.append(dict(name=f'seed {i} with another lens',seeded=1,lens={i:'LENSMODEL_OPENCV5'},change={}))
        C.append(dict(name=f'seed {i} with another size than --imagersize',seeded=1,size={i:(SIZE[0],SIZE[1]+2)},change={}))
        C.append(dict(name=f'seed {i} with another size',seeded=1,ok=1,size={i:(SIZE[0]+2,SIZE[1]+2)},change=dict(size=[])))
    add('--lensmodel and another seed',seeded=1,l=['--lensmodel','LENSMODEL_OPENCV5']); add('--lensmodel and its seed',seeded=1,ok=1,l=['--lensmodel','LENSMODEL_OPENCV4'])
    C.append(dict(name='no --imagersize, no images, no seed',change=dict(size=[])))
    for w,h in (('6','6'),('7','7'),('8','6'),('42','2'),('0','6'),('-7','-6'),('a','6')): add(f'a board of {w} x {h}',w=['--object-width-n='+w],h=['--object-height-n='+h])
    add('no --object-height-n, board not square',h=[])
    for z in ('0','-.1','nan','a'): add(f'--object-spacing {z}',sp=['--object-spacing='+z])
    add('no table at that path, no images',corners=['--corners-cache','nope.vnl']); add('a directory for a table',corners=['--corners-cache','.'])
    add('a glob that matches no image',images=['L*.jpg','zzz*.jpg']); add('two globs for the same images',images=['L*.jpg','L*.jpg']); add('overlapping globs',images=['*.jpg','L*.jpg'])
    add('eleven cameras',images=['L*.jpg']*11); add('--outdir that is not there',o=['--outdir','nope']); add('--outdir that is a file',o=['--outdir','corners.vnl'])
    for z in (['0','800'],['-1000','800'],['1000'],['a','b']): add(f'--imagersize {z}',size=['--imagersize']+z)
    return C
# ---------------------------------------------------------------- items
def items():
    I=[]; P='LENSMODEL_PINHOLE'; O4='LENSMODEL_OPENCV4'
    EX=dict(fit=1e-3,q=1e-3,r=1e-5,t=1e-5)
    LENS=list(KX)+[SPL%2,SPL%3]
    SKR,SKO,SKW='--skip-regularization','--skip-outlier-rejection','--skip-calobject-warp-solve'
    def tol(lens,noise,reg,N):
        lat='LATLON' in lens or 'LONLAT' in lens
        if noise: return dict(fit=.5) if lat or 'STEREO' not in lens and 'PINHOLE' not in lens or 'SPL' in lens else dict(fit=.5,q=1.,r=.003,t=.003)
        if not reg: return dict(fit=1e-3) if lat or N==1 and 'SPL' in lens else EX
        if lat: return dict(fit=1e-3)
        if lens=='LENSMODEL_CAHVOR': return dict(fit=.5)
        if 'SPL' in lens: return dict(fit=.02,q=2.,r=.003,t=.003)
        return dict(fit=.02,q=.3,r=1e-3,t=1e-3)
    for lens in LENS:
        for N in (1,2,3,4):
            if lens=='LENSMODEL_CAHVOR' and N>2: continue # a poor optimization problem, with local minima
            for n in range(8):
                opt=[x for k,x in enumerate((SKR,SKO)) if n>>k&1]; noise=0 if n&2 else .1; wp=n>>2
                if lens==SPL%2 and not noise: pass
                t=tol(lens,noise,not n&1,N)
                if lens==SPL%2: t=dict(fit=.5) # cannot be exact: the surface is not smooth
                I.append(('solve',dict(lens=lens,N=N,opt=opt,noise=noise,warp=(.003,-.002) if wp else (0,0),tol=t,weights=(n+N)%2,focal=('600','560','%s'%','.join(str(600+9*i) for i in range(N)))[(n+N)%3])))
    # options x seeds
    for n in range(16):
        opt=[x for k,x in enumerate((SKR,SKO,SKW,'--pairs')) if n>>k&1]; noise=0 if n&2 else .1
        for s in (None,0,1):
            for sk in range(4 if s is not None else 1):
                o=opt+[x for k,x in enumerate(('--skip-intrinsics-solve','--skip-extrinsics-solve')) if sk>>k&1]
                for N in (2,4) if '--pairs' in o else (2,3):
                    if s==1 and sk: t={}   # what is kept is off
                    else: t=tol(O4,noise,not n&1,N)
                    if N==4 and not THOROUGH and sk in (1,2): continue
                    I.append(('solve',dict(lens=O4,N=N,opt=o,noise=0 if t=={} else noise,tol=t,weights=n&1,seed=None if s is None else dict(perturb=s,form=('list','glob','mixed')[(n+sk)%3],lensarg=(n+sk)//2%2),sizearg=s is None or n%2==0)))
    # all of the lenses, from seeds; kept or solved
    for lens in LENS:
        for sk in range(4):
            for pt in (0,1):
                if pt and sk and not sk==3: continue
                o=[SKO]+[x for k,x in enumerate(('--skip-intrinsics-solve','--skip-extrinsics-solve')) if sk>>k&1]
                I.append(('solve',dict(lens=lens,N=2,opt=o+[SKR],noise=0,tol={} if pt and sk or lens=='LENSMODEL_CAHVOR' and pt or lens==SPL%2 and sk!=3 else dict(fit=1e-3) if 'SPL' in lens or 'LAT' in lens and not sk&1 else EX,seed=dict(perturb=pt))))
    # views that are missing
    for N,F in ((2,5),(3,5)):
        V=list(itertools.product(range(F),range(N)))
        for n in (1,2,3):
            for ms in itertools.combinations(V,n):
                if N==3 and n==3 and not THOROUGH: continue
                if n==3 and not THOROUGH and sum(f*3+i*5 for f,i in ms)%2: continue
                how=['dash' if (sum(f for f,i in ms)+k)%2 else 'gone' for k in range(n)]
                I.append(('solve',dict(lens='LENSMODEL_STEREOGRAPHIC',N=N,F=F,W=5,H=5,opt=[SKR,SKO],missing=dict(zip(ms,how)),tol=dict(fit=1e-3,q=1e-3,r=1e-5,t=1e-5))))
    # what connects the cameras: each pair shares none, one or two frames; every way to connect three cameras. One shared
    # frame is not enough: the tool asks for two
    F=12
    for link in itertools.product((0,1,2),repeat=3):
        for rot in range(3):
            ms={}
            pairs=((0,1),(1,2),(0,2)); share=dict(zip(pairs,link))
            for f in range(F):
                if f<6:
                    p=pairs[(f+rot)%3]; keep=p if share[p]>f//3 else (p[0],)
                else: keep=(f%3,)
                for i in range(3):
                    if i not in keep: ms[f,i]='dash' if (f+i)%2 else 'gone'
            S=dict(lens='LENSMODEL_STEREOGRAPHIC',N=3,F=F,W=5,H=5,opt=[SKR,SKO],missing=ms,tol=dict(fit=1e-3,q=1e-2,r=1e-4,t=1e-4))
            if link.count(2)<2: S['refuse']='cameras that are not connected'
            I.append(('solve',S))
    for N in (2,3):
        for i in range(N):
            for how in ('dash','gone'): I.append(('solve',dict(lens='LENSMODEL_STEREOGRAPHIC',N=N,F=5,missing={(f,i):how for f in range(5)},refuse='a camera without a view')))
    # outliers: each view x corners; pairs of them
    F,W,H=6,5,5
    for f,i in itertools.product(range(F),range(2)):
        for j,k in ((0,0),(2,2),(4,1),(1,4)) if not THOROUGH else itertools.product(range(H),range(W)):
            for o in ((),(SKO,)):
                n=f+i+j+k
                if o and not THOROUGH and n%4: continue
                I.append(('solve',dict(lens=P,N=2,F=F,W=W,H=H,opt=list(o)+[SKW],noise=.1,tol={} if o else dict(fit=.6,q=1.,r=.003,t=.003),weights=n%2,out={(f,i,j,k):((40.,0.),(0.,-40.),(25.,25.))[n%3]})))
    for a in range(F):
        for o in ((SKW,),(SKW,SKR)):
            I.append(('solve',dict(lens=O4,N=2,F=F,W=W,H=H,opt=list(o),noise=.1,tol=dict(fit=.6),out={(a,0,1,1):(40.,0.),((a+1)%F,1,3,3):(0,40.),((a+2)%F,0,0,4):(-30.,30.)})))
            I.append(('solve',dict(lens=P,N=1,F=F,W=W,H=H,opt=list(o),noise=.1,tol=dict(fit=.6),out={(a,0,j,2):(30.,10.) for j in (0,2,4)})))
    # corners that were never detected
    for f,i,j,k in itertools.product(range(0,6,2),range(2),(0,2,4),(0,3)):
        for w in (0,1):
            for o in ((SKO,),(SKO,SKR)): I.append(('solve',dict(lens=O4,N=2,F=6,W=5,H=5,opt=list(o),weights=w,tol=tol(O4,0,len(o)==1,2),initial={(f,i,j,k),((f+1)%6,i,k,j),(f,1-i,j,k)})))
    # forms
    for g in ('star','q'):
        for D in (None,'out'):
            for W,H in ((7,6),(6,7),(5,5),(10,10)):
                for ha in (0,1):
                    I.append(('solve',dict(lens=P,N=2,W=W,H=H,F=5,heightarg=ha,globs=g,outdir=D,shuffle=ha,spacing=(.1,.02,3.)[(W+ha)%3],spacingarg=g=='q',column=int(W!=6),opt=[SKO,SKR],tol=dict(fit=1e-3,q=1e-3,r=1e-5,t=1e-4))))
    for k,N,mx in itertools.product(('prefix','dir','cwd'),(1,2,3),(0,1)):
        b=dict(lens=O4,N=N,F=6,disk=k,mixed=mx,opt=[SKO,SKR])
        I.append(('solve',dict(b,tol=EX)))
        I.append(('solve',dict(b,tol=EX,seed=dict(perturb=0))))
        if not mx: I.append(('solve',dict(b,tol=EX,sizearg=1))); I.append(('solve',dict(b,disksize={N-1:(SIZE[0],SIZE[1]+1)},sizearg=1,refuse='--imagersize is not that of the images')))
        else: I.append(('solve',dict(b,sizearg=1,refuse='--imagersize is not that of the images'))) if N>1 else None
        I.append(('solve',dict(b,disksize={0:(SIZE[0]-1,SIZE[1])},seed=dict(perturb=0),refuse='the seed has not the size of the images')))
    for N in (2,3): I.append(('solve',dict(lens=O4,N=N,mixed=1,seed=dict(perturb=1),sizearg=0,opt=[SKO,SKR],tol=EX)))
    I+=[('conflict',x) for x in conflicts()]
    return I
def go(it): return solve(it[1]) if it[0]=='solve' else conflict(it[1])
def main(c,b):
    sys.path.insert(0,b); P28.BDIR=b
    import mrcal
    warnings.simplefilter('ignore')
    tmp=tempfile.mkdtemp(prefix='vf_p32_'); os.environ['TMPDIR']=tmp; tempfile.tempdir=tmp
    np.seterr(all='ignore')
    I=items(); tot=0
    try:
        for it,r in zip(I,vf.pmap(go,I,chunk=1)):
            if r[0]!='ok': c.violation('died-'+it[0],f'{it[0]}: {r}',dict(item=repr(it))); continue
            n,bad=r[1]; c.count(it[0],n); tot+=n
            for key,what in bad: c.violation(key,what,dict(item=repr(it)))
    finally: shutil.rmtree(tmp,ignore_errors=True)
    c.sample(dict(item=repr(I[0])[:300]))
    return dict(evaluations=tot,distinct_nontrivial=c.counts.get('solve',0),exhaustive=True,rule='every scene and set of options: exit 0, the models documented, that hold the given corners, reproject onto them, and agree with the scene; every conflict: non-zero exit, no file')
if __name__=='__main__': vf.main(main,'P32','exploration')
