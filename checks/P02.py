#!/usr/bin/env python3
"""P02: packing, unpacking and ingesting the state vector.

Every configuration (counts x lens models x all selections) is enumerated; the packed/unpacked
vectors of the real code are compared, element by element, with a model that scales each element by
one constant per kind of variable. The constants are measured once, on one problem."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf,itertools
import numpy as np
DO=('do_optimize_intrinsics_core','do_optimize_intrinsics_distortions','do_optimize_extrinsics','do_optimize_frames','do_optimize_calobject_warp')

def kinds(L):
    out=[]
    for (k,j),(i,l) in L.sblocks.items():
        if k=='intrinsics': out+=(['f','f','c','c'] if L.sel['core'] else [])+(['dist']*L.nd if L.sel['dist'] else [])
        elif k=='extrinsics': out+=['rcam']*3+['tcam']*3
        elif k=='frames': out+=['rframe']*3+['tframe']*3
        elif k=='points': out+=['point']*3
        else: out+=['warp']*2
    return out
def measure():
    """the constants, as seen on one problem"""
    import mrcal,ref
    m='LENSMODEL_OPENCV4'
    L=ref.Layout(m,1,1,1,1,0,1,3,2,1,[],dict(core=1,dist=1,ext=1,frames=1,warp=1,reg=0,unity=0))
    b=np.ones(L.Nstate)
    mrcal.unpack_state(b,lensmodel=m,Ncameras_intrinsics=1,Ncameras_extrinsics=1,Nframes=1,Npoints=1,Nobservations_board=1,Nobservations_point=1)
    d={}
    for k,s in zip(kinds(L),b): d.setdefault(k,s)
    return d

def close(a,b): 
    return a.shape==b.shape and bool((np.abs(a-b)<=8e-16*np.abs(b)).all())
def pack_case(item):
    import mrcal,ref,probs
    model,Nci,Nce,Nf,Np,Npf,Nob,Nop=item
    D=measure(); bad=[]; n=0; seen=set()
    base=dict(lensmodel=model,Ncameras_intrinsics=Nci,Ncameras_extrinsics=Nce,Nframes=Nf,Npoints=Np,Npoints_fixed=Npf,Nobservations_board=Nob,Nobservations_point=Nop)
    for v in itertools.product((0,1),repeat=5):
        s=dict(zip(('core','dist','ext','frames','warp'),v),reg=1,unity=0)
        L=ref.Layout(model,Nci,Nce,Nf,Np,Npf,Nob,3,2,Nop,[],s)
        kw=dict(base,**dict(zip(DO,(bool(x) for x in v))))
        N=L.Nstate; seen.add((N,)+tuple(kinds(L)))
        S=np.array([D[k] for k in kinds(L)])
        def fail(*a): bad.append((dict(sel=s,counts=item),)+a)
        for kk,amp in ((0,1.),(1,1e4),(2,1e-7)):
            b=probs.seq((N,),kk,amp)
            if kk==0 and N: b[::3]=0.; b[1::5]=1.
            u=b.copy(); r=mrcal.unpack_state(u,**kw)
            if r is not None or not close(u,b*S): fail('unpack',b[:8],u[:8],(b*S)[:8])
            p=b.copy(); r=mrcal.pack_state(p,**kw)
            if r is not None or not close(p,b/S): fail('pack',b[:8],p[:8],(b/S)[:8])
            w=u.copy(); mrcal.pack_state(w,**kw)
            if not close(w,b): fail('unpack, pack is not the identity',b[:8],w[:8])
            w=p.copy(); mrcal.unpack_state(w,**kw)
            if not close(w,b): fail('pack, unpack is not the identity',b[:8],w[:8])
            n+=4
        # leading dimensions
        for shape in ((1,),(3,),(2,1),(2,2,3),(0,)):
            B=probs.seq(shape+(N,),5)
            for f,w in ((mrcal.pack_state,B/S),(mrcal.unpack_state,B*S)):
                u=B.copy(); f(u,**kw); n+=1
                if not close(u,w): fail('broadcast',shape,f.__name__)
        # what cannot be processed in place is refused, unchanged; a guard surrounds the data
        if N:
            for name,mk in (('strided',lambda: np.ones((N,2))[:,0]),('reversed',lambda: np.ones(N)[::-1]),('transposed',lambda: np.ones((N,4)).T),
                            ('float32',lambda: np.ones(N,np.float32)),('int',lambda: np.ones(N,int)),
                            ('short',lambda: np.ones(N-1)),('long',lambda: np.ones(N+1)),('shape (2,N+1)',lambda: np.ones((2,N+1))),('scalar',lambda: np.array(1.)),('transposed shape',lambda: np.ones((N,N+1)))):
                a=mk()
                if name in('reversed','strided') and N==1: continue
                for f in (mrcal.pack_state,mrcal.unpack_state):
                    n+=1
                    try: f(a,**kw); ok=False
                    except Exception: ok=True
                    if not (a==1).all() or (not ok and not (f,name) in ()):
                        fail('refused array',name,f.__name__,'raised' if ok else 'accepted')
            g=np.ones(N+8)*7.
            mrcal.pack_state(g[4:4+N],**kw); n+=1
            if not ((g[:4]==7).all() and (g[4+N:]==7).all()): fail('wrote outside the array')
        if len(bad)>5: break
    return bad[:3],n,seen

def ingest_case(item):
    import mrcal,ref,probs
    model,args,naming=item
    bad=[]; n=0; seen=set(); D=measure()
    for v in itertools.product((0,1),repeat=5):
        s=dict(zip(probs.SELKEYS,v+(1,0)))
        if args.get('tri') and (s['core'] or s['dist'] or not s['ext']): continue
        P=probs.Prob(model,sel=s,**args)
        L=P.L
        kw=P.kw()
        if naming=='legacy':
            kw['extrinsics_rt_fromref']=kw.pop('rt_cam_ref'); kw['frames_rt_toref']=kw.pop('rt_ref_frame')
        keep={k:(a.copy() if isinstance(a,np.ndarray) else a) for k,a in kw.items()}
        S=np.array([D[k] for k in kinds(L)])
        b0=P.state()/S if L.Nstate else np.zeros(0)
        b=b0+probs.seq((L.Nstate,),21,.05)
        want=dict(zip(('intrinsics','rt_cam_ref','rt_ref_frame','points','calobject_warp'),L.unpack(b*S,*P.values())))
        if naming=='legacy':
            want['extrinsics_rt_fromref']=want.pop('rt_cam_ref'); want['frames_rt_toref']=want.pop('rt_ref_frame')
        barg=b.copy()
        if naming=='strided b': barg=np.repeat(b,2)[::2]
        bref=barg.copy()
        seen.add((L.Nstate,v))
        try:
            r=mrcal.ingest_packed_state(barg,**kw)
            n+=1
        except Exception as e:
            bad.append((s,args,'raised %r'%e)); continue
        if not (barg==bref).all(): bad.append((s,'b_packed was modified'))
        for k in kw:
            if isinstance(kw[k],np.ndarray):
                w=want.get(k,keep[k])
                if w is None: continue
                ok=np.abs(kw[k]-w)<=1e-14*np.abs(w)
                same=(keep[k]==w)
                # what is not optimized is bit-identical
                mask=fixed(L,k,keep[k].shape)
                ok&=np.where(mask,kw[k]==keep[k],True)
                if not ok.all(): bad.append((s,args,k,kw[k].ravel()[:10],w.ravel()[:10]))
            elif kw[k] is not keep[k] and kw[k]!=keep[k]: bad.append((s,k,'changed'))
        if L.Nstate:
            b1=mrcal.optimizer_callback(no_factorization=True,no_jacobian=True,**kw)[0]
            n+=1
            if not (np.abs(b1-b)<=1e-13*(1+np.abs(b))).all(): bad.append((s,args,'optimizer_callback() packs something else',b[:8],b1[:8]))
        # a state of the wrong length changes nothing
        for d in (-1,1):
            if L.Nstate+d<0: continue
            now={k:a.copy() for k,a in kw.items() if isinstance(a,np.ndarray)}
            try: mrcal.ingest_packed_state(np.zeros(L.Nstate+d),**kw); bad.append((s,'accepted a state of the wrong length'))
            except Exception: pass
            n+=1
            if any(not np.array_equal(now[k],kw[k]) for k in now): bad.append((s,'rejected state was written'))
        if len(bad)>5: break
    return bad[:3],n,seen
def fixed(L,k,shape):
    m=np.ones(shape,bool)
    if k=='intrinsics':
        if L.sel['core']: m[:,:4]=False
        if L.sel['dist']: m[:,4:]=False
    if k in ('rt_cam_ref','extrinsics_rt_fromref') and L.sel['ext']: m[:]=False
    if k in ('rt_ref_frame','frames_rt_toref') and L.sel['frames']: m[:]=False
    if k=='points' and L.sel['frames']: m[:len(m)-L.Npf]=False
    if k=='calobject_warp' and L.sel['warp'] and L.Nob: m[:]=False
    return m

def main(c,bdir):
    import probs
    th=vf.TIER=='thorough'
    ms=probs.MODELS if th else ['LENSMODEL_PINHOLE','LENSMODEL_OPENCV5','LENSMODEL_CAHVORE_linearity=0.37',probs.SPL2]
    R=range(4) if th else range(3)
    items=[(m,)+t+(Nob,Nop) for m in ms for t in itertools.product(R,R,R) for Nob in (0,2) for Nop in (0,)]
    items=[(m,a,b,f,Np,Npf,Nob,Nop) for (m,a,b,f,Nob,_) in items for Np,Npf,Nop in ((0,0,0),(2,0,1),(2,1,2),(2,2,2),(1,0,1),(3,1,2))]
    S3=[(0,-1),(1,0)]; MV=[(0,-1),(0,0),(1,1)]
    cs=[]
    for m in probs.MODELS:
        for a in (dict(sens=S3),dict(sens=[(0,0)],Nf=1,Np=2),dict(sens=S3,Np=3,Npf=1),dict(sens=MV,Nf=1,Np=2,Npf=2),dict(sens=S3,Nf=0,boards=[],Np=3),
                  dict(sens=MV,Nf=1,tri=[[0,1],[0,1,2]]),dict(sens=[(0,-1),(1,0),(2,1)],Nf=3)):
            if 'tri' in a and 'CAHVORE' in m: continue
            for nm in ('current','legacy','strided b'): cs.append((m,a,nm))
    tot=0; nq=0; seen=set(); k=0
    for fn,its in ((pack_case,items),(ingest_case,cs)):
        for it,r in zip(its,vf.pmap(fn,its)):
            tot+=32
            if r[0]=='ok':
                bad,n,sn=r[1]; nq+=n; seen|={(fn.__name__,it[0])+x for x in sn}
                for b in bad: c.violation(fn.__name__,'%s: %s'%(it,b),dict(function=fn.__name__,item=it,detail=b))
            else: c.violation(fn.__name__+':'+r[0],'%s: %s'%(it,r[1]),dict(function=fn.__name__,item=it))
            k+=1
            if k%501==1: c.sample(dict(function=fn.__name__,item=it))
    return dict(states=tot,transitions=nq,traces_validated_against_impl=tot,distinct_layouts=len(seen),exhaustive=True,
                rule='state: one problem configuration with one selection of what is optimized; transition: one pack/unpack/ingest call of the real library whose result is compared with the model')
if __name__=='__main__': vf.main(main,'P02','model_checking')
