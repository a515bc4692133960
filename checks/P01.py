#!/usr/bin/env python3
"""P01: layout of the state and measurement vectors.

Model: ref.Layout, the tiling the documentation prescribes. Every configuration in the bounds is
enumerated; every query function is asked for every item (and for items off either end), and the
answers are compared with the model's. A second enumeration evaluates the cost function on concrete
problems and compares the lengths and positions with what the queries say."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf,itertools
import numpy as np

W,H=3,2
DO=('do_optimize_intrinsics_core','do_optimize_intrinsics_distortions','do_optimize_extrinsics','do_optimize_frames','do_optimize_calobject_warp','do_apply_regularization','do_apply_regularization_unity_cam01')

def queries(mrcal,L,kw,bad,count):
    """asks every query with kw; compares with the model"""
    def q(f,want,*a):
        count[0]+=1
        try: got=getattr(mrcal,f)(*a,**kw)
        except Exception as e: got='EXC '+str(e)[-200:]
        if type(got)!=type(want) or got!=want: bad.append((f,a,want,got))
    for f,k in (('intrinsics','intrinsics'),('extrinsics','extrinsics'),('frames','frames'),('points','points'),('calobject_warp','warp')):
        q('num_states_'+f,L.counts(k,L.sblocks))
        n=dict(intrinsics=L.Nci,extrinsics=L.Nce,frames=L.Nf,points=L.Np,warp=0)[k]
        if k=='warp':
            b=L.sblocks.get(('warp',0)); q('state_index_calobject_warp',b[0] if b else None)
            continue
        for i in range(-1,n+2):
            b=L.sblocks.get((k,i))
            q('state_index_'+f,b[0] if b else None,i)
    q('num_states',L.Nstate)
    q('num_intrinsics_optimization_params',L.ni)
    q('num_measurements_boards',L.counts('board',L.mblocks))
    q('num_measurements_points',L.counts('point',L.mblocks))
    q('num_measurements_points_triangulated',L.counts('tri',L.mblocks))
    q('num_measurements_regularization',L.counts('reg',L.mblocks))
    q('num_measurements',L.Nmeas)
    def first(k,i):
        b=L.mblocks.get((k,i)); return b[0] if b else None
    for i in range(max(1,L.Nob)): q('measurement_index_boards',first('board',i),i)
    for i in range(max(1,L.Nop)): q('measurement_index_points',first('point',i),i)
    for i in range(max(1,len(L.trisets))): q('measurement_index_points_triangulated',first('tri',i),i)
    q('measurement_index_regularization',first('reg',0))

def layout_case(item):
    """one (lens model, counts) x all selections"""
    import mrcal,ref
    model,Nci,Nce,Nf,Np,Npf,Nob,Nop,tri,how=item
    bad=[]; count=[0]; seen=set()
    itci=np.array([(j,0,i) for j,n in enumerate(tri) for i in range(n)],np.int32).reshape(-1,3)
    base=dict(lensmodel=model)
    if Npf: base['Npoints_fixed']=Npf
    if tri: base['indices_point_triangulated_camintrinsics_camextrinsics']=itci
    if how=='explicit':
        base.update(Ncameras_intrinsics=Nci,Ncameras_extrinsics=Nce,Nframes=Nf,Npoints=Np,Nobservations_board=Nob,Nobservations_point=Nop,
                    calibration_object_width_n=W,calibration_object_height_n=H)
    else:
        n=ref.nparams(model); old=how=='legacy'
        base.update(intrinsics=np.zeros((Nci,n)),points=np.zeros((Np,3)),observations_board=np.zeros((Nob,H,W,3)),observations_point=np.zeros((Nop,3)))
        base['extrinsics_rt_fromref' if old else 'rt_cam_ref']=np.zeros((Nce,6))
        base['frames_rt_toref' if old else 'rt_ref_frame']=np.zeros((Nf,6))
        if how=='override':   # explicit dimensions take precedence over the arrays
            base.update(Ncameras_intrinsics=Nci,Ncameras_extrinsics=Nce,Nframes=Nf,Npoints=Np,Nobservations_board=Nob,Nobservations_point=Nop,
                        intrinsics=np.zeros((Nci+1,n)),points=np.zeros((Np+2,3)),rt_cam_ref=np.zeros((Nce+1,6)),rt_ref_frame=np.zeros((Nf+3,6)),
                        observations_board=np.zeros((Nob+1,H,W,3)),observations_point=np.zeros((Nop+1,3)))
    for v in itertools.product((0,1),repeat=7):
        s=dict(zip(('core','dist','ext','frames','warp','reg','unity'),v))
        L=ref.Layout(model,Nci,Nce,Nf,Np,Npf,Nob,W,H,Nop,list(tri),s)
        kw=dict(base,**dict(zip(DO,(bool(x) for x in v))))
        n0=len(bad)
        queries(mrcal,L,kw,bad,count)
        seen.add((L.Nstate,L.Nmeas,tuple(L.sblocks.items()).__hash__()))
        if len(bad)>n0: bad[n0]=bad[n0]+(dict(sel=s),)
        if len(bad)>20: break
    # defaults: everything there is gets optimized
    s=dict(core=Nci>0,dist=Nci>0,ext=Nce>0,frames=Nf>0,warp=Nob>0,reg=1,unity=0)
    n0=len(bad)
    queries(mrcal,ref.Layout(model,Nci,Nce,Nf,Np,Npf,Nob,W,H,Nop,list(tri),s),base,bad,count)
    if len(bad)>n0: bad[n0]=bad[n0]+('default selections',)
    return bad[:5],count[0],len(seen)

def concrete_case(item):
    """cost function and solver lengths, for real problems x all selections"""
    import mrcal,probs
    model,args=item
    bad=[]; n=0; out=set()
    for v in itertools.product((0,1),repeat=7):
        s=dict(zip(probs.SELKEYS,v))
        if args.get('tri') and (s['core'] or s['dist'] or not s['ext']): continue
        P=probs.Prob(model,sel=s,**args)
        L=P.L
        kw=P.kw()
        count=[0]; b2=[]
        queries(mrcal,L,kw,b2,count)
        bad+=[('queries on a real problem',s)+x for x in b2]
        n+=count[0]
        n+=1
        if L.Nstate==0:
            # nothing is being optimized: there is nothing to compute, and this is refused
            try:
                b,x,J,f=mrcal.optimizer_callback(no_factorization=True,**kw)
                if b.shape!=(0,) or x.shape!=(L.Nmeas,): bad.append(('empty problem',s,(b.shape,x.shape)))
            except RuntimeError: pass
            continue
        b,x,J,f=mrcal.optimizer_callback(no_factorization=True,**kw)
        if b.shape!=(L.Nstate,) or x.shape!=(L.Nmeas,) or J.shape!=(L.Nmeas,L.Nstate):
            bad.append(('optimizer_callback shapes',s,(L.Nstate,L.Nmeas),(b.shape,x.shape,J.shape)))
        # which rows depend on each block's columns: the documented dependence only
        Jp,Ji=J.indptr,J.indices
        col=np.zeros(L.Nstate,int)-1; names=list(L.sblocks)
        for k,(i,l) in L.sblocks.items(): col[i:i+l]=names.index(k)
        for (k,j),(i,l) in L.mblocks.items():
            used={names[c] for c in set(col[Ji[Jp[i]:Jp[i+l]]].tolist())}
            if   k=='board': f_,ci,ce=P.ifci[j]; ok={('intrinsics',ci),('extrinsics',ce),('frames',f_),('warp',0)}
            elif k=='point': p_,ci,ce=P.ipci[j]; ok={('intrinsics',ci),('extrinsics',ce),('points',p_)}
            elif k=='tri': ok={('extrinsics',e) for j2,c2,e in P.itci if j2==j}
            else: ok={(a,b_) for a,b_ in names if a in ('intrinsics',) or (a,b_)==('extrinsics',0)}
            if not used<=ok: bad.append(('rows of %s %d depend on other items'%(k,j),s,sorted(ok),sorted(used-ok)))
        # packed state holds what the index queries say is there
        if L.Nstate:
            d=np.abs(b*L.scale()-P.state())
            if not (d<1e-9*(1+np.abs(P.state()))).all(): bad.append(('packed state contents',s,P.state()[:12],(b*L.scale())[:12]))
        out.add((L.Nstate,L.Nmeas,len(J.data)))
        # the solver's own results have these lengths as well
        if v in SOLVE:
            kw=P.kw()
            try:
                st=mrcal.optimize(**kw)
                n+=1
                if st['b_packed'].shape!=(L.Nstate,) or st['x'].shape!=(L.Nmeas,): bad.append(('optimize() lengths',s,(L.Nstate,L.Nmeas),(st['b_packed'].shape,st['x'].shape)))
            except RuntimeError as e: pass
        if len(bad)>10: break
    return bad[:5],n,len(out)
SOLVE=set([(1,1,1,1,1,1,0),(1,0,1,1,0,1,1),(0,0,1,1,1,1,0),(0,0,1,0,0,1,1)])

def mapping_case(item):
    """camera-index mapping: every assignment of cameras to up to 3 observations"""
    import mrcal
    Nci,Nce,obsb,obsp=item
    ib=np.array([(0,ci,ce) for ci,ce in obsb],np.int32).reshape(-1,3)
    ip=np.array([(0,ci,ce) for ci,ce in obsp],np.int32).reshape(-1,3)
    kw=dict(Ncameras_intrinsics=Nci,Ncameras_extrinsics=Nce,Nobservations_board=len(ib),Nobservations_point=len(ip),
            indices_frame_camintrinsics_camextrinsics=ib,indices_point_camintrinsics_camextrinsics=ip,observations_point=np.zeros((len(ip),3)),
            observations_board=np.zeros((len(ib),H,W,3)))
    allobs=list(obsb)+list(obsp)
    fwd={}; rev={}; ok=Nci in (Nce,Nce+1)
    for ci,ce in allobs:
        if fwd.setdefault(ci,ce)!=ce or rev.setdefault(ce,ci)!=ci: ok=False
    bad=[]; n=0
    for ic in range(-1,Nci+1):
        n+=1
        if not ok or not 0<=ic<Nci: want='EXC'
        else: want=fwd.get(ic,'EXC')
        try: got=mrcal.corresponding_icam_extrinsics(ic,**kw)
        except Exception as e: got='EXC'
        if got!=want:
            k='icam-unobserved' if ok and ic not in fwd and got==-100 else 'icam-mapping'
            bad.append((k,ic,dict(Nci=Nci,Nce=Nce,boards=obsb,points=obsp),want,got))
    return bad,n,1

def decode_case(sets):
    import mrcal
    itci=np.array([(j,0,i-1) for j,n in enumerate(sets) for i in range(n)],np.int32).reshape(-1,3)
    kw=dict(indices_point_triangulated_camintrinsics_camextrinsics=itci)
    bad=[]; n=0
    m=0; o=0
    for j,N in enumerate(sets):
        for a in range(N):
            for b in range(a+1,N):
                n+=1
                want=dict(iobservation0=o+a,iobservation1=o+b,iobservation_point0=o,Nobservations_this_point=N,Nmeasurements_this_point=N*(N-1)//2,ipoint=j)
                try: got=mrcal.decode_observation_indices_points_triangulated(m,**kw)
                except Exception as e: got=repr(e)
                if got!=want: bad.append(('decode',sets,m,want,got))
                m+=1
        o+=N
    n+=1
    try: got=mrcal.decode_observation_indices_points_triangulated(m,**kw); bad.append(('decode past the end',sets,m,'error',got))
    except Exception: pass
    return bad[:3],n,1

def main(c,bdir):
    import probs
    th=vf.TIER=='thorough'
    items=[]
    ms=probs.MODELS if th else ['LENSMODEL_PINHOLE','LENSMODEL_OPENCV8','LENSMODEL_CAHVOR',probs.SPL2]
    R=range(3)
    for m in ms:
        full=m==ms[0] or th
        for Nci,Nce,Nf in itertools.product(range(4) if th else R,R,R):
            for Np,Npf in ((0,0),(1,0),(1,1),(2,0),(2,1),(3,2)) if full else ((0,0),(2,1)):
                for Nob in R:
                    for Nop in (0,2):
                        for tri in ((),(2,3)) if Nop==0 or th else ((),):
                            items.append((m,Nci,Nce,Nf,Np,Npf,Nob,Nop,tri,'explicit' if full else ('arrays','override','legacy','explicit')[(Nci+Nce+Nf+Np+Nob+Nop)%4]))
    jobs=[(layout_case,items)]
    S3=[(0,-1),(1,0)]; MV=[(0,-1),(0,0),(1,1)]
    cs=[]
    for m in (probs.MODELS if th else ['LENSMODEL_PINHOLE','LENSMODEL_OPENCV5','LENSMODEL_CAHVORE_linearity=0.37',probs.SPL3]):
        for a in (dict(sens=S3),dict(sens=[(0,0)],Nf=1,Np=2),dict(sens=S3,Np=3,Npf=1),dict(sens=MV,Nf=1,Np=2,Npf=2),dict(sens=S3,Nf=0,boards=[],Np=3),
                  dict(sens=MV,Nf=1,tri=[[0,1],[0,1,2]]),dict(sens=[(0,-1),(0,0),(0,1)],Nf=0,boards=[],Np=1,tri=[[1,2],[0,2],[0,1,2]])):
            if 'tri' in a and 'CAHVORE' in m: continue
            cs.append((m,a))
    jobs.append((concrete_case,cs))
    mp=[]
    for Nci in range(1,4):
        for Nce in range(0,4):
            pairs=[(ci,ce) for ci in range(Nci) for ce in range(-1,Nce)]
            for nb,np_ in ((0,0),(1,0),(0,1),(2,0),(1,1),(0,2))+(((2,1),(3,0)) if Nci<3 and Nce<3 or th else ()):
                for t in itertools.product(pairs,repeat=nb+np_): mp.append((Nci,Nce,t[:nb],t[nb:]))
    jobs.append((mapping_case,mp))
    jobs.append((decode_case,[s for n in range(1,4) for s in itertools.product(range(2,7 if n<3 or th else 5),repeat=n)]+[(n,) for n in range(7,40 if not th else 120)]))
    tot=0; nq=0; dist=0
    for fn,its in jobs:
        for it,r in zip(its,vf.pmap(fn,its)):
            tot+=1
            if r[0]=='ok':
                bad,n,d=r[1]; nq+=n; dist+=d
                for b in bad:
                    key=b[0] if fn is mapping_case else fn.__name__+':'+str(b[0])
                    c.violation(key,'%s: %s'%(it,b),dict(function=fn.__name__,item=it,detail=b))
            else: c.violation(fn.__name__+':'+r[0],'%s: %s'%(it,r[1]),dict(function=fn.__name__,item=it))
            if tot%4001==1: c.sample(dict(function=fn.__name__,item=it))
    return dict(states=tot,transitions=nq,traces_validated_against_impl=tot,distinct_layouts=dist,exhaustive=True,
                rule='state: one problem configuration (for the layout enumeration, all 128 optimization selections of it); transition: one query of the real library, its answer compared with the model of the documented tiling')
if __name__=='__main__': vf.main(main,'P01','model_checking')
