#!/usr/bin/env python3
"""P24: the sparse factorization and the uncertainty propagation equal the direct linear algebra.

Enumerated: (factor) every sparsity pattern of a small J x every solve variant x right-hand-side shapes, against exact
rational algebra, and every sequence of calls on one object; (K) every selection of optimized variables x arrangements
of cameras, frames and points x which camera, against the documented formula evaluated densely; (unc) the propagated
uncertainty for every method, output, range and selection, against a direct dense evaluation where the sensitivity of
the projection comes from moving each state variable in the documented data flow."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf,itertools
import numpy as np
import ref,probs
THOROUGH=os.environ.get('VERIF_TIER')=='thorough'
SYS='A LDLt LD DLt L Lt D P Pt'.split()

# ------------------------------------------------------------------ the factorization
def csr(J,unsorted=False):
    import scipy.sparse
    J=np.asarray(J,float); ip=[0]; ix=[]; d=[]
    for r in J:
        k=list(np.flatnonzero(r)); k=k[::-1] if unsorted else k
        ix+=k; d+=[r[i] for i in k]; ip.append(len(ix))
    return scipy.sparse.csr_matrix((np.array(d,float),np.array(ix,np.int32),np.array(ip,np.int32)),shape=J.shape)
def rank(J):
    from fractions import Fraction as F
    M=[[F(int(x)) for x in r] for r in J]; rk=0
    for c in range(len(M[0])):
        p=next((i for i in range(rk,len(M)) if M[i][c]),None)
        if p is None: continue
        M[rk],M[p]=M[p],M[rk]
        for i in range(rk+1,len(M)):
            f=M[i][c]/M[rk][c]; M[i]=[a-f*b for a,b in zip(M[i],M[rk])]
        rk+=1
    return rk
SHAPES=[(),(1,),(2,),(5,),(2,3),(1,1,2),(0,),(2,0)]
def rhs(shape,n,k=0): return np.ascontiguousarray(probs.seq(shape+(n,),k,3.))
def close(a,b,tol=1e-9): return np.shape(a)==np.shape(b) and bool((np.abs(np.asarray(a)-b)<=tol*(1+np.abs(b).max(initial=0))).all())
def factor_judge(F,J):
    """all the solve variants of F against JtJ. Returns the problem found, if any"""
    n=J.shape[1]; A=J.T@J; I=np.eye(n)
    inv={s:F.solve_xt_JtJ_bt(I,sys=s).T for s in SYS}            # the matrix that each variant applies
    def is_(a,b,what,tol=1e-8): return None if close(a,b,tol) else what
    P=inv['P']
    if sorted(map(tuple,P.tolist()))!=sorted(map(tuple,I.tolist())): return 'P is not a permutation'
    if not (inv['Pt']==P.T).all(): return 'Pt is not the inverse of P'
    L=np.linalg.inv(inv['L']); D=np.linalg.inv(inv['D'])
    sc=np.abs(L).max()*np.abs(D).max()
    if np.abs(np.triu(L,1)).max(initial=0)>1e-9*np.abs(L).max(): return 'L is not lower-triangular'
    if np.abs(D-np.diag(np.diag(D))).max()>1e-9*np.abs(D).max(): return 'D is not diagonal'
    B=P@A@P.T
    for what,x,y in (('P\'LDL\'P is not JtJ',L@D@L.T,B),('A',inv['A']@A,I),('LDLt',inv['LDLt']@B,I),('LD',inv['LD']@(L@D),I),
                     ('DLt',inv['DLt']@(D@L.T),I),('Lt',inv['Lt']@L.T,I)):
        if not close(x,y,1e-7): return 'wrong: %s'%what
    for s in SYS:
        for sh in SHAPES:
            b=rhs(sh,n); b0=b.copy()
            for name in (s,'CHOLMOD_'+s):
                x=F.solve_xt_JtJ_bt(b,sys=name) if name!='A' else F.solve_xt_JtJ_bt(b)
                if not close(x,(inv[s]@b[...,None])[...,0],1e-9): return 'solve %s with shape %s differs from solving each row'%(name,b.shape)
                if not (b==b0).all(): return 'solve %s modified its input'%name
    d=np.diag(D); rc=d.min()/d.max()
    if not close(F.rcond(),rc,1e-7): return 'rcond() %g, expected %g'%(F.rcond(),rc)
VALUES=[3,-1,2,5,1,-4,7,2,-3,1,6,-2,4,1,-5,2]
def factor_patterns(it):
    import mrcal
    h,w,lo,hi=it; out=[]; n=0
    for m in range(lo,hi):
        J=np.array([VALUES[i] if m>>i&1 else 0 for i in range(h*w)],float).reshape(h,w)
        for uns in (False,True):
            n+=1
            full=rank(J)==w
            try: F=mrcal.CHOLMOD_factorization(csr(J,uns))
            except Exception as e:
                if full: out.append((dict(J=J.tolist(),unsorted=uns),'refused a full-rank J: %s'%e))
                continue
            if not full:
                if (J==0).all(0).any(): out.append((dict(J=J.tolist()),'accepted a J with an empty column'))
                continue
            e=factor_judge(F,J)
            if e: out.append((dict(J=J.tolist(),unsorted=uns),e))
    return n,out
JS=[np.array([[1,0,2],[0,0,3],[4,5,6],[0,7,8]],float),
    np.array([[3,0,0,1,0],[0,2,0,0,-1],[1,0,4,0,0],[0,1,0,5,0],[2,0,0,0,6],[0,0,1,0,1]],float)]
def seq_ops():
    """operations on one object holding JS[0] (n=3) or, after a re-__init__, JS[1] (n=5)"""
    ops=[('s',s,k) for s in SYS for k in ((),(4,))]+[('s','A',(1,)),('s','P',(0,)),('rcond',)]
    ops+=[('init',0),('init',1),('init','singular'),('init','type'),('bad','cols'),('bad','float32'),('bad','stride'),('bad','sys'),('bad','list'),('bad','empty'),('other',)]
    return ops
def seqs(it):
    import mrcal,scipy.sparse
    depth,first=it; ops=seq_ops()
    want={}
    for j,J in enumerate(JS):
        for o in ops:
            if o[0]=='s': want[j,o]=mrcal.CHOLMOD_factorization(csr(J)).solve_xt_JtJ_bt(rhs(o[2],J.shape[1],1),sys=o[1])
        want[j,('rcond',)]=mrcal.CHOLMOD_factorization(csr(J)).rcond()
    sp=[csr(J) for J in JS]; sing=csr(np.array([[1,0,0],[2,0,1.]])); out=[]; n=0
    def step(F,j,o):
        """next state, or a problem"""
        def err(f):
            try: f()
            except Exception: return True
            return False
        N=3 if j is None else JS[j].shape[1]
        if o[0]=='s' or o[0]=='rcond':
            f=(lambda: F.solve_xt_JtJ_bt(rhs(o[2],N,1),sys=o[1])) if o[0]=='s' else F.rcond
            if j is None: return (j,None if err(f) else 'no error without a factorization')
            x=f(); w=want[j,o]
            return j,None if np.shape(x)==np.shape(w) and (np.asarray(x)==w).all() else 'result differs from that of a fresh object'
        if o[0]=='init':
            if o[1] in (0,1): F.__init__(sp[o[1]]); return o[1],None
            return None,None if err(lambda: F.__init__(sing if o[1]=='singular' else JS[0])) else 'no error from a bad __init__'
        if o[0]=='other':
            G=mrcal.CHOLMOD_factorization(sp[1]); y=G.solve_xt_JtJ_bt(rhs((4,),5,1),sys='A'); del G
            return j,None if (y==want[1,('s','A',(4,))]).all() else 'another object gives a different result'
        b=rhs((2,),N)
        f={'cols':lambda: F.solve_xt_JtJ_bt(rhs((2,),N+1)),'float32':lambda: F.solve_xt_JtJ_bt(b.astype(np.float32)),
           'stride':lambda: F.solve_xt_JtJ_bt(rhs((2,),2*N)[:,::2]),'sys':lambda: F.solve_xt_JtJ_bt(b,sys='LL'),
           'list':lambda: F.solve_xt_JtJ_bt(b.tolist()),'empty':lambda: F.solve_xt_JtJ_bt(np.zeros((3,0)))}[o[1]]
        return j,None if err(f) else 'no error from a bad call'
    for rest in itertools.product(ops,repeat=depth-1):
        F=mrcal.CHOLMOD_factorization(sp[0]); j=0; n+=1
        for i,o in enumerate((first,)+rest):
            j,e=step(F,j,o)
            if e: out.append((dict(ops=[list(map(str,x)) for x in ((first,)+rest)[:i+1]]),e)); break
        if len(out)>50: break
    return n,out

# ------------------------------------------------------------------ problems
def families():
    """name, arguments of Prob, and the selections that apply"""
    P=lambda **k: k
    B=dict(W=3,H=3,noise=.3)
    f={
     'rig2 ref cam0':P(sens=[(0,-1),(1,0)],Nf=3,**B),
     'rig2 ref free':P(sens=[(0,0),(1,1)],Nf=3,**B),
     'rig3 some views':P(sens=[(0,-1),(1,0),(2,1)],Nf=3,boards=[(0,0),(0,1),(1,1),(1,2),(2,0),(2,1),(2,2)],**B),
     'mono ref cam0':P(sens=[(0,-1)],Nf=4,**B),
     'mono ref free':P(sens=[(0,0)],Nf=4,**B),
     'moving camera':P(sens=[(0,0),(0,1),(0,2)],Nf=1,**B),
     'moving camera, first at ref':P(sens=[(0,-1),(0,0),(0,1)],Nf=1,**B),
     'two poses, two cameras':P(sens=[(0,0),(0,1),(1,2)],Nf=2,**B),
     'outliers':P(sens=[(0,-1),(1,0)],Nf=3,wb={(0,0,0):-1.,(3,1,2):-1.,(4,0,1):-1.},**B),
     'no warp':P(sens=[(0,-1),(1,0)],Nf=3,warp=False,**B),
     'points only':P(sens=[(0,-1),(1,0)],Nf=0,Np=12,noise=.3,warp=False),
     'points only, free':P(sens=[(0,0),(1,1)],Nf=0,Np=12,Npf=3,noise=.3,warp=False),
     'fixed points':P(sens=[(0,0),(1,1)],Nf=0,Np=12,Npf=12,noise=.3,warp=False),
     'boards and points':P(sens=[(0,-1),(1,0)],Nf=2,Np=5,Npf=1,warp=False,**B),
     'boards and points, warp':P(sens=[(0,-1),(1,0)],Nf=2,Np=5,Npf=1,**B),
    }
    return f
def selections(a):
    for core,dist,ext,frames,warp,reg in itertools.product((1,0),repeat=6):
        if warp and not a.get('warp',True): continue
        yield dict(core=core,dist=dist,ext=ext,frames=frames,warp=warp,reg=reg)
MODELS=['LENSMODEL_PINHOLE','LENSMODEL_OPENCV4',probs.SPL3]
_cache={}
def problem(fam,model,sel,vary=0):
    a=families()[fam]
    return probs.Prob(model=model,sel=sel,vary=vary,**a)
def jac(P):
    """x, J (full scale), J packed"""
    import mrcal
    b,x,J,f=mrcal.optimizer_callback(no_factorization=True,**P.kw())
    J=J.toarray(); return x,J/P.L.scale(),J
def compose(a,b):
    """rt composition, complex-capable at a~0 (to first order in a, exactly what a derivative at a=0 needs)"""
    # R_a R_b ~ (I + [ra]x) R_b
    R=(np.eye(3)+ref.skew(a[:3]))@ref.R_from_r(b[:3])
    return R,(np.eye(3)+ref.skew(a[:3]))@b[3:]+a[3:]
def dleft(rt):
    """d(compose(tiny,rt))/dtiny as a (6,6) matrix, where a pose is described by its rt: from the derivative of the
    rotation matrix"""
    r=rt[:3]
    G=ref.cgrad(lambda v: ref.R_from_r(v).ravel(),r)                      # (9,3)
    H=np.stack([(ref.skew(np.eye(3)[i])@ref.R_from_r(r)).ravel() for i in range(3)],-1)
    dr=np.linalg.lstsq(G,H,rcond=None)[0]
    out=np.zeros((6,6)); out[:3,:3]=dr; out[3:,:3]=-ref.skew(rt[3:]); out[3:,3:]=np.eye(3)
    return out
def adj(rt):
    """T tiny T^-1 = compose to first order: tiny' = adj tiny"""
    R=ref.R_from_r(rt[:3]); out=np.zeros((6,6)); out[:3,:3]=R; out[3:,3:]=R; out[3:,:3]=ref.skew(rt[3:])@R
    return out
def K_expected(P,J,icam):
    """the documented K (full scale), or a reason why it cannot be evaluated"""
    L=P.L; sb=L.sblocks; N=L.Nstate
    rows=[]
    for i,(f,ci,ce) in enumerate(P.ifci):
        o,l=L.mblocks['board',i]; rows.append((o,l,ci,ce,'frames',f,P.frames[f]))
    for i,(p,ci,ce) in enumerate(P.ipci):
        o,l=L.mblocks['point',i]; rows.append((o,l,ci,ce,'points',p,P.points[p]))
    Jc=[]; Jb=[]
    mask=np.zeros(N)
    for (k,j),(i,l) in sb.items():
        if k in ('frames','points','warp') or (k=='extrinsics' and icam>=0): mask[i:i+l]=1
    for o,l,ci,ce,kind,j,val in rows:
        if icam>=0 and ci!=icam: continue
        Jr=J[o:o+l]; jc=np.zeros((l,6))
        if icam>=0 and ce>=0 and ('extrinsics',ce) in sb:
            i,n=sb['extrinsics',ce]; jc=Jr[:,i:i+n]@dleft(P.ext[ce])
        elif (kind,j) in sb:
            i,n=sb[kind,j]
            M=dleft(val) if kind=='frames' else np.concatenate((-ref.skew(val),np.eye(3)),-1)
            jc=Jr[:,i:i+n]@M
            if icam>=0 and ce>=0: jc=jc@np.linalg.inv(adj(P.ext[ce]))    # this camera is fixed, elsewhere: the tiny motion is of the camera
        Jc.append(jc); Jb.append(Jr*mask)
    if not Jc: return None,'no measurements'
    Jc=np.concatenate(Jc); Jb=np.concatenate(Jb)
    S=np.array([1,1,1,1,1,1.]); M=Jc.T@Jc
    c=np.linalg.cond(M)
    if not c<1e11: return None,'singular'
    return -np.linalg.solve(M,Jc.T@Jb),c
def K_may_fail(P,icam):
    """what the implementation documents that it does not support"""
    sb=P.L.sblocks; has=lambda k: any(a==k for a,_ in sb)
    if icam>=0 and not has('intrinsics'): return True
    if not has('frames') and not has('extrinsics'): return True
    if has('warp') and len(P.ipci): return True
    if icam>=0 and not P.sel['ext'] and len(set(int(ce) for f,ci,ce in list(P.ifci)+list(P.ipci) if ci==icam))>1: return True
    return False
def K_check(it):
    import mrcal
    fam,model,sel,vary=it; P=problem(fam,model,sel,vary); out=[]; n=0; nd=0
    if P.L.Nstate==0: return 0,0,[]
    x,J,Jp=jac(P)
    for icam in [-1]+list(range(P.L.Nci)):
        n+=1
        K,why=K_expected(P,J,icam)
        try: got=mrcal.drt_cross_reprojection__dbpacked(icam_intrinsics=icam,**P.kw())
        except Exception as e:
            if K is not None and not K_may_fail(P,icam): out.append((dict(family=fam,model=model,sel=sel,icam=icam),'cross-reprojection refused: %s'%str(e)[:80]))
            continue
        if K is None:
            if why=='no measurements': out.append((dict(family=fam,model=model,sel=sel,icam=icam),'K given, but %s'%why))
            continue
        nd+=1
        want=K*P.L.scale()
        for s_ in (slice(0,3),slice(3,6)):
            e=np.abs(got[s_]-want[s_]).max(); m=np.abs(want[s_]).max()
            if not e<=1e-15*why*10*m+1e-9*m:
                i=np.abs(got[s_]-want[s_]).argmax()%P.L.Nstate
                kind=[k for (k,j),(o,l) in P.L.sblocks.items() if o<=i<o+l][0]
                out.append((dict(family=fam,model=model,sel=sel,icam=icam),'K differs from the documented formula (in %s)'%kind)); break
    return n,nd,out

# ------------------------------------------------------------------ uncertainty
class Model:
    """what projection_uncertainty() uses of a cameramodel"""
    def __init__(s,kw,icam): s.kw,s.icam=kw,icam
    def optimization_inputs(s): return s.kw
    def icam_intrinsics(s): return s.icam
PCAM=np.array([[.3,-.2,2.],[-.4,.5,6.],[.05,.1,1.3]])
def applyT(rt,p,inf):
    q=ref.rotate(rt[:3],p)
    return q if inf else q+rt[3:]
def applyTinv(rt,p,inf): return ref.rotate(-rt[:3],p if inf else p-rt[3:])
def dq_db(P,J,icam,method,inf,p):
    """the sensitivity of the projection of p to the (full-scale) state: moving each variable in the documented flow"""
    L=P.L; b0=P.state(); mine=sorted(set(int(ce) for f,ci,ce in list(P.ifci)+list(P.ipci) if ci==icam))
    if method=='cross-reprojection-ccp':
        K,c=K_expected(P,J,icam)
        if K is None: return None
    elif method=='cross-reprojection-rrp-Jfp':
        K,c=K_expected(P,J,-1)
        if K is None or len(mine)!=1: return None
    def q(b):
        intr,ext,frames,points,warp=L.unpack(b,*P.values())
        E=lambda e,c: np.zeros(6) if c<0 else e[c]
        if method=='cross-reprojection-ccp': pp=applyTinv(K@(b-b0),p,inf)
        elif method=='cross-reprojection-rrp-Jfp':
            pp=applyT(E(ext,mine[0]),applyTinv(K@(b-b0),applyTinv(E(P.ext,mine[0]),p,inf),inf),inf)
        else:
            pp=0; n=0
            for e in mine:
                pr=applyTinv(E(P.ext,e),p,inf)
                for f in (range(L.Nf) if ('frames',0) in L.sblocks else [None]):
                    pr2=pr if f is None else applyT(frames[f],applyTinv(P.frames[f],pr,inf),inf)
                    pp=pp+applyT(E(ext,e),pr2,inf); n+=1
            pp=pp/n
        return ref.project(P.model,intr[icam],pp)
    return ref.cgrad(q,b0)
def supported(P,icam,method):
    """what projection_uncertainty() says it handles"""
    sb=P.L.sblocks; has=lambda k: any(a==k for a,_ in sb)
    mine=sorted(set(int(ce) for f,ci,ce in list(P.ifci)+list(P.ipci) if ci==icam))
    if method!='mean-pcam' and K_may_fail(P,icam if method=='cross-reprojection-ccp' else -1): return False
    if method=='cross-reprojection-rrp-Jfp' and len(mine)>1: return False
    if method!='cross-reprojection-ccp' and len(mine)>1 and (mine[0]<0 or mine!=list(range(mine[0],mine[-1]+1))): return False
    if method=='mean-pcam' and P.sel['frames'] and len(P.ipci): return False
    return True
def unc_check(it):
    import mrcal
    fam,model,sel,vary=it; P=problem(fam,model,sel,vary); out=[]; n=0; nd=0
    if P.L.Nstate==0: return 0,0,[]
    x,J,Jp=jac(P); L=P.L
    nobs=L.counts('board',L.mblocks)+L.counts('point',L.mblocks)
    Jo=Jp[:nobs]; A=Jp.T@Jp
    c=np.linalg.cond(A)
    if not c<1e10: return 0,0,[]
    iA=np.linalg.inv(A); V=iA@(Jo.T@Jo)@iA if L.Nmeas>nobs else iA; S=L.scale()
    # each measurement of a board or point counts, except the outliers
    inl=np.concatenate([np.repeat((o[...,2]>0).ravel(),2) for o in (P.ob,P.op) if o.size])
    n_,s2=inl.sum(),(x[:nobs][inl]**2).sum()
    est=np.sqrt(s2/n_)/np.sqrt(1-L.Nstate/n_) if L.Nstate<n_ else None
    for icam in range(L.Nci):
        for method in ('cross-reprojection-ccp','mean-pcam','cross-reprojection-rrp-Jfp'):
            for inf in (False,True):
                kw=P.kw(); M=Model(kw,icam); ok=supported(P,icam,method)
                D=[dq_db(P,J,icam,method,inf,p) for p in PCAM]
                cfg=dict(family=fam,model=model,sel=sel,icam=icam,method=method,atinfinity=inf)
                good=D[0] is not None
                if good: W=np.array([(d*S)@V@(d*S).T for d in D])
                for what,opu,shape in (('covariance',.7,(3,)),('covariance',None,(3,)),('worstdirection-stdev',.7,(3,)),('rms-stdev',.7,(3,)),
                                       ('covariance',.7,()),('worstdirection-stdev',None,(1,3,1)),('rms-stdev',.7,())):
                    n+=1
                    p=PCAM.reshape(shape+(3,)) if shape!=() else PCAM[0]; p=p.copy(); p0=p.copy()
                    if shape==(1,3,1): p=PCAM.reshape(1,3,1,3).copy()
                    if opu is None and est is None: continue
                    try: got=mrcal.projection_uncertainty(p,M,method=method,atinfinity=inf,what=what,observed_pixel_uncertainty=opu)
                    except Exception as e:
                        if good and ok: out.append((dict(cfg,what=what,shape=shape),'uncertainty refused: %s: %s'%(type(e).__name__,str(e)[:80])))
                        continue
                    if not good: continue
                    nd+=1; o=.7 if opu is not None else est
                    w=W if shape!=() else W[0]; w=w.reshape(shape+(2,2))
                    if what=='covariance': w=w*o*o
                    elif what=='rms-stdev': w=np.sqrt(np.trace(w,axis1=-1,axis2=-2)/2)*o
                    else: w=np.sqrt(np.linalg.eigvalsh(w)[...,-1])*o
                    if np.shape(got)!=w.shape: out.append((dict(cfg,what=what,shape=shape),'uncertainty of shape %s, expected %s'%(np.shape(got),w.shape))); continue
                    if not np.abs(got-w).max()<=(1e-14*c*10+1e-7)*np.abs(w).max(): out.append((dict(cfg,what=what,shape=shape,opu=opu),'uncertainty differs from the direct evaluation'))
                for k,v in P.kw().items():
                    if isinstance(v,np.ndarray) and not np.array_equal(v,kw[k]): out.append((cfg,'optimization inputs modified: %s'%k))
    return n,nd,out
def prop_check(it):
    """the propagation of arbitrary functions of the state, given in each supported way"""
    import mrcal
    from mrcal.model_analysis import _propagate_calibration_uncertainty as prop
    fam,model,sel=it; P=problem(fam,model,sel); out=[]; n=0; L=P.L
    if L.Nstate==0: return 0,0,[]
    b,x,Js,fac=mrcal.optimizer_callback(**P.kw())
    Jp=Js.toarray(); A=Jp.T@Jp
    if fac is None or not np.linalg.cond(A)<1e10: return 0,0,[]
    nobs=L.counts('board',L.mblocks)+L.counts('point',L.mblocks); iA=np.linalg.inv(A); S=L.scale()
    lead=nobs if L.Nmeas>nobs else 0
    for N in (1,2,3,4,5,None):
        for shape in ((),(3,),(2,2)):
            d=probs.seq(shape+((N,) if N else ())+(L.Nstate,),5,2.)
            if N is None and shape: continue
            for how in ('packed','unpacked','pieces'):
                for Nl in ([None] if how!='pieces' else [lead,0,max(1,nobs//2)]):
                    k=dict(observed_pixel_uncertainty=.6); l=lead if Nl is None else Nl
                    D=d.copy(); D0=D.copy()
                    if how=='packed': k.update(dF_dbpacked=D,optimization_inputs=P.kw()); ds=d
                    elif how=='unpacked': k.update(dF_dbunpacked=D,optimization_inputs=P.kw()); ds=d*S
                    else: k.update(dF_dbpacked=D,x=x,factorization=fac,Jpacked=Js,Nmeasurements_observations_leading=l); ds=d
                    V=iA@(Jp[:l].T@Jp[:l])@iA if l else iA
                    w=np.einsum('...ij,jk,...lk->...il',ds if N else ds[None],V,ds if N else ds[None])
                    for what in ('covariance','worstdirection-stdev','rms-stdev'):
                        n+=1
                        if what=='covariance': W=w*.36 if N else w[0,0]*.36
                        elif what=='rms-stdev': W=np.sqrt(np.trace(w,axis1=-1,axis2=-2)/w.shape[-1])*.6
                        else: W=np.sqrt(np.linalg.eigvalsh(w)[...,-1])*.6
                        cfg=dict(family=fam,model=model,sel=sel,N=N,shape=shape,how=how,lead=l,what=what)
                        try: got=prop(what,**k)
                        except Exception as e: out.append((cfg,'propagation refused: %s: %s'%(type(e).__name__,str(e)[:80]))); continue
                        if np.shape(got)!=np.shape(W): out.append((cfg,'propagation of shape %s, expected %s'%(np.shape(got),np.shape(W)))); continue
                        if not np.abs(got-W).max()<=1e-6*np.abs(W).max(): out.append((cfg,'propagation differs from the direct evaluation'))
                        if not (D==D0).all(): out.append((cfg,'the gradient was modified'))
    return n,n,out
def worst_check(it):
    """worst_direction_stdev(): all small symmetric positive-semidefinite matrices over an alphabet"""
    import mrcal
    N,vals=it; out=[]; Vs=[]
    for t in itertools.product(vals,repeat=N*(N+1)//2):
        l=np.zeros((N,N)); l[np.tril_indices(N)]=t; Vs.append(l@l.T)
    V=np.array(Vs); e=np.linalg.eigvalsh(V)[...,-1]; w=np.sqrt(np.maximum(e,0))
    for shape in ((-1,),(1,-1,1)):
        if N>2: k=[v for v in V if np.abs(v).max()>0]; VV=np.array(k); ww=np.sqrt(np.linalg.eigvalsh(VV)[...,-1])
        else: VV,ww=V,w
        got=mrcal.worst_direction_stdev(VV.reshape(shape+(N,N)))
        ww=ww.reshape(shape)
        if np.shape(got)!=ww.shape or not np.abs(got-ww).max()<1e-6: out.append((dict(N=N),'worst_direction_stdev() is not the largest standard deviation'))
    for v,x in zip(V[1:4],w[1:4]):
        if abs(mrcal.worst_direction_stdev(v)-x)>1e-6: out.append((dict(V=v.tolist()),'worst_direction_stdev() of one matrix'))
    return len(V),len(V),out

def go(it):
    f={'factor':factor_patterns,'seq':seqs,'K':K_check,'unc':unc_check,'prop':prop_check,'worst':worst_check}[it[0]]
    r=f(it[1]); return r if len(r)==3 else (r[0],r[0],r[1])
def main(c,b):
    items=[]
    for h,w in [(2,2),(3,2),(2,3),(4,3),(1,1),(3,3)]+([(5,3),(4,4)] if THOROUGH else []):
        n=1<<(h*w); s=max(1,min(n,128)); items+=[('factor',(h,w,i,min(n,i+s))) for i in range(0,n,s)]
    items+=[('seq',(4 if THOROUGH else 3,o)) for o in seq_ops()]
    for fam,a in families().items():
        for sel in selections(a):
            for model in MODELS:
                if model!=MODELS[1] and not THOROUGH and (sel['reg'] or fam not in ('rig2 ref cam0','points only, free','moving camera')): continue
                for vary in (0,1) if THOROUGH else (0,):
                    items.append(('K',(fam,model,sel,vary))); items.append(('unc',(fam,model,sel,vary)))
    for sel in selections({}):
        for fam in ('rig2 ref cam0','mono ref free','points only'):
            if fam=='points only' and sel['warp']: continue
            items.append(('prop',(fam,MODELS[1],sel)))
    items+=[('worst',(1,[-2,-1,0,1,2,3])),('worst',(2,[-2,-1,0,.5,1,3])),('worst',(3,[-1,0,2])),('worst',(4,[0,1]))]
    ev=nd=0
    for it,r in zip(items,vf.pmap(go,items,chunk=1 if THOROUGH else None)):
        if r[0]!='ok': c.violation('%s:crash'%it[0],'%s %s: %s'%(it[0],str(it[1])[:200],str(r[1])[-300:]),dict(item=it,crash=str(r[1])[-600:])); continue
        n,d,out=r[1]; ev+=n; nd+=d; c.count(it[0],n)
        for cfg,what in out: c.violation('%s:%s'%(it[0],what),'%s: %s'%(what,cfg),dict(kind=it[0],what=what,config=cfg))
    c.sample(dict(kinds=sorted(set(i[0] for i in items)),families=list(families())))
    c.sample(dict(sequence_operations=[list(map(str,o)) for o in seq_ops()]))
    return dict(evaluations=ev,distinct_nontrivial=nd,exhaustive=True,
      rule='every sparsity pattern of J up to 4x3 x solve variants x right-hand-side shapes; every call sequence to depth 3; every selection of optimized variables x camera/frame/point arrangement x camera x uncertainty method/output/range. Nontrivial: well-posed, and compared')
if __name__=='__main__': vf.main(main,'P24','exploration')
