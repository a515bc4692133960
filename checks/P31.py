#!/usr/bin/python3
"""P31: invalid arguments raise an error, and nothing else happens.

Every argument of every Python entry point of the optimization and projection layers is replaced with
every member of a fixed set of malformations; optionally with any one of the other arguments absent, and every
index is replaced with every out-of-range value, and every pair of index rows is exchanged. An
independent predicate says which of the resulting calls are invalid. The calls run on the real code, in
processes that may die; each array ends at an inaccessible page, so that an access past its end is fatal. After each
call: an invalid one raised; a call that raised modified nothing; a call that was accepted produced what the
equivalent well-formed arguments produce; a valid call that follows produces what it always did."""
import os,sys,itertools,copy,mmap,ctypes,signal,pickle,struct
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf; import numpy as np
THOROUGH=os.environ.get('VERIF_TIER')=='thorough'
SPL='LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=5_Ny=4_fov_x_deg=100'
_libc=ctypes.CDLL(None,use_errno=True); _keep=[]
def guard(a,ro=False,off=0):
    """a copy of a that ends where an inaccessible page begins"""
    a=np.asarray(a); nb=a.nbytes
    n=(nb+off+4095)//4096+1
    m=mmap.mmap(-1,n*4096); base=ctypes.addressof(ctypes.c_char.from_buffer(m))
    _libc.mprotect(ctypes.c_void_p(base+(n-1)*4096),4096,0)
    start=(n-1)*4096-nb-off
    r=np.frombuffer(m,dtype=np.uint8,count=nb,offset=start).view(a.dtype) if nb else np.zeros(0,a.dtype)
    r=r.reshape(a.shape); r[...]=a
    if ro: r.flags.writeable=False
    _keep.append((m,r)); return r
class Nasty:
    def __array__(s,*a,**k): raise RuntimeError('no')
class Arr(list): pass
# Kinds: 'bad' must raise. 'same' may raise; if it does not, then the result is that of the well-formed call.
# 'any' may do either, but nothing may be damaged
def forms(a):
    """malformations of an array argument that do not depend on what it means"""
    a=np.asarray(a); f=a.dtype.kind=='f'
    yield 'str','bad','zzz'
    yield 'surrogate','bad','\ud800'
    yield 'int','bad',5
    yield 'float','bad',1.5
    yield 'dict','bad',{}
    yield 'object','bad',object()
    yield 'raises-in-array','bad',Nasty()
    yield 'bytes','bad',b'zzz'
    yield 'ragged','bad',[[1,2],[3]]
    yield 'list','same',a.tolist()
    yield 'complex','bad',a.astype(complex)
    yield 'object-array','bad',a.astype(object)
    yield 'str-array','bad',a.astype(str)
    yield 'bool-array','bad',a.astype(bool)
    for t in (('f4','f2','i4','i8','u1') if f else ('i8','i2','u4','u1','f4','f8')):
        b=a.astype(t); yield t,'same' if np.array_equal(b.astype(float),a.astype(float)) else 'bad',b
    yield 'byte-swapped','same',a.astype(a.dtype.newbyteorder('>'))
    if a.ndim>1: yield 'fortran','same',np.asfortranarray(a.copy())
    b=np.zeros(a.shape[:-1]+(2*a.shape[-1],),a.dtype); b[...,::2]=a; yield 'strided-last','same',b[...,::2]
    b=np.zeros((2*a.shape[0],)+a.shape[1:],a.dtype); b[::2]=a; yield 'strided-first','same',b[::2]
    b=np.array(a[::-1]); yield 'reversed','same',b[::-1]
    yield 'broadcast','any',np.broadcast_to(a[:1],a.shape)
    yield 'unaligned','same',('off',a)
    yield 'read-only','same',('ro',a)
    yield 'extra-dim','bad',a[None]
    yield 'extra-dim-last','bad',a[...,None]
    yield 'less-dim','bad',a[0]
    yield 'flat','bad' if a.ndim>1 else 'same',a.ravel()
    yield '0-dim','bad',np.array(a.ravel()[0])
    for i in range(a.ndim):
        for d in (-1,1,3):
            if a.shape[i]+d<0: continue
            ix=np.minimum(np.arange(a.shape[i]+d),a.shape[i]-1); yield 'dim%d%+d'%(i,d),'auto',np.take(a,ix,axis=i)
        if a.shape[i]: yield 'dim%d=0'%i,'auto',np.take(a,[],axis=i)
def indices(a):
    """each entry of an index array out of range, each exchange of two rows, each removed or repeated row"""
    for i,j in np.ndindex(a.shape):
        for v in (-2147483648,-2,-1,0,1,2,3,4,2147483647):
            b=a.copy(); b[i,j]=v; yield '[%d,%d]=%d'%(i,j,v),'auto',b
    for i,j in itertools.combinations(range(len(a)),2):
        b=a.copy(); b[[i,j]]=a[[j,i]]; yield 'swap%d,%d'%(i,j),'auto',b
def material(v):
    if isinstance(v,tuple) and len(v)==2 and isinstance(v[0],str):
        if v[0]=='off': return guard(v[1],off=1)
        if v[0]=='ro':  return guard(v[1],ro=True)
    if type(v) is np.ndarray and v.flags.c_contiguous and v.dtype.kind!='O': return guard(v)
    return v
# ------------------------------------------------------------------ the optimization layer
NPAR={'LENSMODEL_OPENCV12':16,'LENSMODEL_CAHVOR':9,'LENSMODEL_CAHVORE_linearity=0.5':12}
NP_={'LENSMODEL_PINHOLE':4,'LENSMODEL_OPENCV4':8,SPL:44}
def problems():
    import probs
    P={}
    P['boards+points']=probs.Prob(model='LENSMODEL_PINHOLE',sens=((0,-1),(1,0)),Nf=2,Np=3,Npf=1)
    P['boards']=probs.Prob(model='LENSMODEL_OPENCV4',sens=((0,-1),(1,0)),Nf=3,W=4,H=3)
    P['points']=probs.Prob(model='LENSMODEL_PINHOLE',sens=((0,-1),(1,0),(0,1)),Nf=0,Np=4,Npf=2,warp=False,sel=dict(warp=0,core=0,dist=0,reg=0))
    P['triangulated']=probs.Prob(model='LENSMODEL_PINHOLE',sens=((0,-1),(1,0)),Nf=2,tri=[(0,1),(0,1)],sel=dict(core=0,dist=0,reg=0))
    P['spline']=probs.Prob(model=SPL,sens=((0,-1),),Nf=2,W=3,H=3)
    return P
ARR=dict(intrinsics=2,imagersizes=2,rt_cam_ref=2,rt_ref_frame=2,points=2,observations_board=4,indices_frame_camintrinsics_camextrinsics=2,
 observations_point=2,indices_point_camintrinsics_camextrinsics=2,observations_point_triangulated=2,
 indices_point_triangulated_camintrinsics_camextrinsics=2,calobject_warp=1,extrinsics_rt_fromref=2,frames_rt_toref=2)
FIXED=dict(imagersizes=(None,2),rt_cam_ref=(None,6),rt_ref_frame=(None,6),points=(None,3),observations_board=(None,None,None,3),indices_frame_camintrinsics_camextrinsics=(None,3),
 observations_point=(None,3),indices_point_camintrinsics_camextrinsics=(None,3),observations_point_triangulated=(None,3),indices_point_triangulated_camintrinsics_camextrinsics=(None,3),calobject_warp=(2,))
def invalid(kw,entry):
    """the documented conditions on the arguments; all the arrays have the right type and ndim"""
    g=lambda k: kw.get(k) if kw.get(k) is not None else None
    if g('intrinsics') is None or g('lensmodel') is None or 'imagersizes' not in kw: return 'missing'
    for k,s in FIXED.items():
        a=g(k)
        if a is None: continue
        if a.ndim!=len(s) or any(x is not None and x!=y for x,y in zip(s,a.shape)): return 'shape of '+k
    n=lambda k: len(g(k)) if g(k) is not None else 0
    Ni,Ne,Nf,Np=n('intrinsics'),n('rt_cam_ref'),n('rt_ref_frame'),n('points'); Npf=kw.get('Npoints_fixed',0)
    if g('intrinsics').ndim!=2 or g('intrinsics').shape[1]!=NP_[kw['lensmodel']]: return 'shape of intrinsics'
    if n('imagersizes')!=Ni: return 'imagersizes'
    ib,ip,it=[g(k) if g(k) is not None else np.zeros((0,3),int) for k in ('indices_frame_camintrinsics_camextrinsics','indices_point_camintrinsics_camextrinsics','indices_point_triangulated_camintrinsics_camextrinsics')]
    if n('observations_board')!=len(ib) or n('observations_point')!=len(ip) or n('observations_point_triangulated')!=len(it): return 'observation counts'
    if len(ib):
        if not kw.get('calibration_object_spacing',-1)>0: return 'spacing'
        if kw.get('do_optimize_calobject_warp',True) and g('calobject_warp') is None: return 'warp'
        if 0 in g('observations_board').shape: return 'board with no corners'
    last=(-1,-1,-1)
    for f,ci,ce in ib:
        if not(0<=f<Nf and 0<=ci<Ni and -1<=ce<Ne): return 'range'
        if f<last[0] or f>last[0]+1: return 'order'
        if f==last[0] and (ci<last[1] or ce<last[2]): return 'order'
        last=(f,ci,ce)
    if len(ib) and last[0]!=Nf-1: return 'cover'
    if Npf<0 or Npf>Np: return 'fixed'
    big=-1
    for p,ci,ce in ip:
        if not(0<=p<Np and 0<=ci<Ni and -1<=ce<Ne): return 'range'
        if p>big+1: return 'order'
        big=max(big,p)
    if big!=Np-1: return 'cover'
    # each triangulated point: consecutive rows with the same index, at least two of them
    grp=[]
    for p,ci,ce in it:
        if not(0<=ci<Ni and -1<=ce<Ne): return 'range'
        if not grp or grp[-1][0]!=p: grp.append([p,0])
        grp[-1][1]+=1
    if any(x[1]<2 for x in grp): return 'triangulated'
    if [x[0] for x in grp]!=sorted(set(x[0] for x in grp)) or (grp and (grp[0][0]!=0 or grp[-1][0]!=len(grp)-1)): return 'triangulated order'
    return None
OUT={'optimize':{'intrinsics','rt_cam_ref','rt_ref_frame','points','calobject_warp','observations_board','observations_point','observations_point_triangulated','extrinsics_rt_fromref','frames_rt_toref'}}
def flat(r):
    """a result as a list of arrays"""
    if r is None or isinstance(r,(int,float,str,bool,np.number)): return [np.array(-12345. if r is None else (float(len(r)) if isinstance(r,str) else float(r)))]
    if isinstance(r,np.ndarray): return [r.astype(float)] if r.dtype.kind in 'fiub' else []
    if isinstance(r,dict): return [x for k in sorted(r) for x in flat(r[k])]
    if isinstance(r,(tuple,list)): return [x for y in r for x in flat(y)]
    if hasattr(r,'toarray'): return [r.toarray()]
    return []
def differs(a,b):
    a,b=flat(a),flat(b)
    if len(a)!=len(b): return True
    for x,y in zip(a,b):
        if x.shape!=y.shape: return True
        if x.size and not np.allclose(x,y,rtol=1e-6,atol=1e-7,equal_nan=True): return True
    return False
def session(cases,handler):
    """handler(case) for each, in processes that may die. Returns [(index,result or ('died',signal))]"""
    out=[]; i=0
    while i<len(cases):
        r,w=os.pipe(); pid=os.fork()
        if pid==0:
            try:
                os.close(r); f=os.fdopen(w,'wb')
                signal.signal(signal.SIGALRM,signal.SIG_DFL)
                for j in range(i,len(cases)):
                    signal.setitimer(signal.ITIMER_REAL,60)
                    try: x=handler(cases[j])
                    except BaseException as e: x=('harness','%s: %s'%(type(e).__name__,str(e)[:300]))
                    _keep.clear(); pickle.dump((j,x),f); f.flush()
                f.close()
            finally: os._exit(0)
        os.close(w); f=os.fdopen(r,'rb'); last=i-1
        while True:
            try: j,x=pickle.load(f)
            except Exception: break
            out.append((j,x)); last=j
        f.close(); _,st=os.waitpid(pid,0)
        if last+1<len(cases): out.append((last+1,('died',st&127))); i=last+2
        else: break
    return out
def attempt(call,kw,kind,outputs,base,valid,arg,inplace=None):
    """one call. Returns None or what is wrong"""
    arrays={k:v for k,v in kw.items() if isinstance(v,np.ndarray) and v.dtype.kind!='O'}
    before={k:v.copy() for k,v in arrays.items()}; rc={k:sys.getrefcount(v) for k,v in kw.items()}
    raised=None
    try: r=call(kw)
    except SystemError as e: return 'SystemError: %s'%str(e)[:120]
    except Exception as e: raised=e.with_traceback(None)
    def same(k): return arrays[k].shape==before[k].shape and arrays[k].tobytes()==before[k].tobytes()
    for k in arrays:
        if same(k): continue
        if raised is not None: return 'an error was raised, but %s was modified'%k
        if k not in outputs: return '%s was modified'%k
        if not arrays[k].flags.writeable: return 'the read-only %s was modified'%k
    for k,v in kw.items():
        if sys.getrefcount(v)<rc[k]<1<<30: return 'a reference to %s was lost'%k
    if raised is None:
        if kind=='bad': return 'accepted'
        if kind=='same' and base is not None:
            if differs(r,base[0]): return 'accepted, but the result is not that of the well-formed argument'
            for k in outputs:
                if k in arrays and k in base[1] and arrays[k].shape==base[1][k].shape and not np.allclose(arrays[k].astype(float),base[1][k],rtol=1e-6,atol=1e-7): return 'accepted, but the result in %s is not that of the well-formed argument'%k
    elif kind=='valid': return 'a valid call raised %s: %s'%(type(raised).__name__,str(raised)[:150])
    v=valid()
    if v: return v
    return None
SCAL=dict(
 calibration_object_spacing=[('str','bad','x'),('None','bad',None),('0','auto',0.),('-1','auto',-1.),('nan','auto',float('nan')),('list','bad',[1.]),('int','any',1),('huge','any',1e300),('tiny','any',1e-300)],
 Npoints_fixed=[('str','bad','x'),('None','bad',None),('float','bad',1.5)]+[(str(i),'auto',i) for i in (-2**31,-2,-1,0,1,2,3,4,5,2**31-1)]+[('2^31','bad',2**31),('2^64','bad',2**64)],
 observed_pixel_uncertainty=[('str','bad','x')],
 imagepaths=[('any','any',object()),('None','any',None)],
 lensmodel=[('None','bad',None),('int','bad',3),('bytes','bad',b'LENSMODEL_PINHOLE'),('surrogate','bad','LENSMODEL_\ud800'),('nul','bad','LENSMODEL_PINHOLE\0')]+
  [(x,'bad',x) for x in ('','x','PINHOLE','LENSMODEL_','LENSMODEL_PINHOL','LENSMODEL_PINHOLE_','lensmodel_pinhole',' LENSMODEL_PINHOLE','LENSMODEL_PINHOLE ','LENSMODEL_CAHVORE','LENSMODEL_CAHVORE_linearity=','LENSMODEL_CAHVORE_linearity=x',
   'LENSMODEL_SPLINED_STEREOGRAPHIC','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=5_Ny=4','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=5_Ny=4_fov_x_deg=','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=x_Ny=4_fov_x_deg=100','LENSMODEL_OPENCV','LENSMODEL_OPENCV3','A'*5000,'LENSMODEL_'+'%s%n'*50)]+
  # valid models that need a different number of parameters
  [(x,'bad',x) for x in ('LENSMODEL_OPENCV12','LENSMODEL_CAHVOR','LENSMODEL_CAHVORE_linearity=0.5','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=11_Ny=10_fov_x_deg=100')])
for _k in ('core','distortions'): SCAL['do_optimize_intrinsics_'+_k]=[]
class NoBool:
    def __bool__(s): raise ValueError('no')
for _k in ('do_optimize_intrinsics_core','do_optimize_intrinsics_distortions','do_optimize_extrinsics','do_optimize_frames','do_optimize_calobject_warp','do_apply_regularization','do_apply_regularization_unity_cam01','do_apply_outlier_rejection'):
    SCAL[_k]=[('no-bool','bad',NoBool()),('array','bad',np.zeros(3)),('flip','flip',None)]
ENTRY={'optimize':'optimize','outliers':'optimize','callback':'optimizer_callback','cross':'drt_cross_reprojection__dbpacked'}
def basekw(name,entry):
    P=problems()[name]; kw=P.kw()
    if entry=='callback': kw['no_factorization']=False
    if entry=='optimize': kw['verbose']=False
    if entry=='outliers':
        kw['do_apply_outlier_rejection']=True
        for k in ('observations_board','observations_point'):
            if k in kw: kw[k][...,0].flat[1]+=400
    if entry=='cross': kw['icam_intrinsics']=0
    return kw
def mk(kw): return {k:material(v) for k,v in kw.items()}
def entrypoint(name,entry):
    """(call,base,valid()) of one entry point of the optimization layer"""
    import mrcal
    f=getattr(mrcal,ENTRY[entry]); kw0=basekw(name,entry)
    def call(kw):
        r=f(**kw)
        if entry=='callback': return r[:3]
        if entry in('optimize','outliers'): return {k:r[k] for k in ('b_packed','x','rms_reproj_error__pixels') if k in r}
        return r
    k=copy.deepcopy(kw0)
    try: base=(call(k),{x:v for x,v in k.items() if isinstance(v,np.ndarray)})
    except Exception: base=None
    # the call that follows: cheap, and touching the same data
    cb=basekw(name,'callback'); b0=mrcal.optimizer_callback(**copy.deepcopy(cb))[:3]
    def valid():
        if differs(mrcal.optimizer_callback(**copy.deepcopy(cb))[:3],b0): return 'the following valid call produced something else'
    return call,kw0,base,valid
def opt_cases(name,entry,pairs):
    kw0=basekw(name,entry); cases=[]
    def put(arg,label,kind,change,drop=()): cases.append((arg,label,kind,change,tuple(drop)))
    args=[k for k in ARR if k in kw0]
    for a in args:
        v=kw0[a]
        empty=v.size==0
        L=[x for x in forms(v)] if not empty else [('str','bad','zzz'),('surrogate','bad','\ud800'),('object','bad',object()),('ragged','bad',[[1],[2,3]]),('extra-dim','bad',v[None]),('1d','bad' if v.ndim!=1 else 'any',np.zeros(0)),('None','same',None),('f4','bad' if v.dtype.kind=='f' else 'bad',v.astype('f4'))]
        if v.dtype.kind=='i' and a!='imagersizes': L+=list(indices(v))
        if not empty: L.append(('None','auto',None))
        L.append(('absent','auto',Ellipsis))
        for l,k,x in L: put(a,l,k,{a:x})
        if pairs:
            for d in args:
                if d==a: continue
                for l,k,x in L:
                    # with an argument absent the others may be insufficient
                    put(a,l,'auto' if k=='auto' else ('bad' if k=='bad' else 'any'),{a:x},(d,))
    for new,old in (('rt_cam_ref','extrinsics_rt_fromref'),('rt_ref_frame','frames_rt_toref')):
        v=kw0[new]
        put(old,'renamed','same',{old:v},(new,))
        put(old,'both','any',{old:v})
        for l,k,x in forms(v) if v.size else ():
            if l.startswith('dim'): k='any'
            put(old,'renamed:'+l,k,{old:x},(new,))
        put(old,'ERROR','any',{old:'ERROR: renamed'})
        put(old,'ERROR-lonely','any',{old:'ERROR: renamed'},(new,))
    for a,L in SCAL.items():
        for l,k,x in L:
            if k=='flip': x=not kw0.get(a,True); k='auto'
            if a=='calibration_object_spacing' and k=='auto' and 'observations_board' not in kw0: k='any'
            put(a,l,k,{a:x})
        if a in kw0: put(a,'absent','auto',{a:Ellipsis})
    if entry=='cross':
        N=len(kw0['intrinsics'])
        for i in (N,N+1,100,2**31-1): put('icam_intrinsics',str(i),'bad',{'icam_intrinsics':i})
        for i in (-1,-2,-2**31): put('icam_intrinsics',str(i),'any',{'icam_intrinsics':i})
        for i in ('x',1.5,None,2**31): put('icam_intrinsics',str(i),'bad',{'icam_intrinsics':i})
    put('unknown','value','bad',{'nosuchargument':3}); put('unknown','array','bad',{'nosuchargument':np.ones(3)})
    return cases
def do_opt(it):
    name,entry,pairs,part,nparts=it
    cases=opt_cases(name,entry,pairs)
    if pairs: cases=[c for c in cases if c[4]]
    cases=cases[part::nparts]
    call,kw0,base,valid=entrypoint(name,entry)
    def handler(c):
        arg,label,kind,change,drop=c
        kw=copy.deepcopy(kw0) if not drop else {k:copy.deepcopy(v) for k,v in kw0.items() if k not in drop}
        for k,v in change.items():
            if v is Ellipsis: kw.pop(k,None)
            else: kw[k]=v
        if kind=='auto':
            q=dict(kw)
            kind='bad' if invalid(q,entry) else 'any'
            if invalid(q,entry)=='board with no corners': kind='any'
        if kind=='bad' and any(isinstance(x,np.ndarray) and x.size==0 for x in change.values()) and 'dim' not in label: kind='any'
        return attempt(call,mk(kw),kind,OUT.get('optimize' if entry=='outliers' else entry,set()),base,valid,arg), kind
    out=[]; nb=0
    for j,x in session(cases,handler):
        a,l,k,ch,drop=cases[j]; what='mrcal.%s() of problem "%s": %s=%s%s'%(ENTRY[entry],name,a,l,' without '+','.join(drop) if drop else '')
        if x[0] in('died','harness'): out.append((a,what,'the process died with signal %s'%x[1] if x[0]=='died' else x[1])); continue
        nb+=x[1]=='bad'
        if x[0]: out.append((a,what,x[0]))
    return len(cases),nb,out
# ------------------------------------------------------------------ functions that describe the state and the measurements
WHAT=dict(state_index_intrinsics='icam_intrinsics',state_index_extrinsics='icam_extrinsics',state_index_frames='iframe',state_index_points='i_point',state_index_calobject_warp=None,
 num_states_intrinsics=None,num_states_extrinsics=None,num_states_frames=None,num_states_points=None,num_states_calobject_warp=None,num_states=None,num_intrinsics_optimization_params=None,
 measurement_index_boards='i_observation_board',measurement_index_points='i_observation_point',measurement_index_points_triangulated='i_point_triangulated',measurement_index_regularization=None,
 num_measurements_boards=None,num_measurements_points=None,num_measurements_points_triangulated=None,num_measurements_regularization=None,num_measurements=None,
 corresponding_icam_extrinsics='icam_intrinsics',decode_observation_indices_points_triangulated='imeasurement',pack_state='b',unpack_state='b')
COUNTS=('Ncameras_intrinsics','Ncameras_extrinsics','Nframes','Npoints','Nobservations_board','Nobservations_point','calibration_object_width_n','calibration_object_height_n')
def state_cases(name,fn):
    import mrcal
    kw0=basekw(name,'state'); cases=[]; arg0=WHAT[fn]
    if arg0=='b':
        n=mrcal.num_states(**kw0); b=1+.25*np.sin(np.arange(n)); kw0['b']=np.array((b,b+1,b*2))
    elif arg0: kw0[arg0]=0
    def put(a,l,k,ch): cases.append((a,l,k,ch,()))
    for a in [k for k in ARR if k in kw0]:
        v=kw0[a]
        if v.size==0: continue
        for l,k,x in forms(v):
            # all the arrays here only describe sizes
            if k=='auto':
                fx=FIXED.get(a); k='bad' if fx and any(i is not None and i!=j for i,j in zip(fx,x.shape)) else 'any'
            put(a,l,k,{a:x})
        if v.dtype.kind=='i' and a!='imagersizes':
            for l,k,x in indices(v): put(a,l,'any',{a:x})
        put(a,'None','any',{a:None}); put(a,'absent','any',{a:Ellipsis})
    for l,k,x in SCAL['lensmodel']:
        if x in('LENSMODEL_OPENCV12','LENSMODEL_CAHVOR','LENSMODEL_CAHVORE_linearity=0.5') or isinstance(x,str) and 'Nx=11' in x: k='any'
        if k=='bad' and isinstance(x,str) and '\0' not in x and '\ud800' not in x and fn not in NEEDS: k='any'
        put('lensmodel',l,k,{'lensmodel':x})
    put('lensmodel','absent','bad' if fn in NEEDS else 'any',{'lensmodel':Ellipsis})
    for l,k,x in SCAL['Npoints_fixed']: put('Npoints_fixed',l,'any' if k=='auto' else k,{'Npoints_fixed':x})
    for k in ('do_optimize_frames','do_apply_regularization'):
        for l,q,x in SCAL[k][:2]: put(k,l,q,{k:x})
    for n in COUNTS:
        if arg0=='b' and n.startswith('calib'): continue
        for l,x in (('str','x'),('None',None),('float',1.5),('2^31',2**31),('2^64',2**64)): put(n,l,'bad',{n:x})
        for x in (-2**31,-1,0,1,2,3,7): put(n,str(x),'any',{n:x})
    if arg0 and arg0!='b':
        for l,x in (('str','x'),('None',None),('float',1.5),('2^31',2**31),('absent',Ellipsis),('array',np.zeros(3))): put(arg0,l,'bad',{arg0:x})
        for x in (-2**31,-2,-1,1,2,3,4,5,6,7,20,2**31-1): put(arg0,str(x),'none',{arg0:x})
    if arg0=='b':
        for l,k,x in forms(kw0['b']):
            if l=='list': k='any'                                   # done in-place on a temporary
            if l in('less-dim','extra-dim'): k='any'                # broadcasts
            if l.startswith('dim0'): k='any'
            if l.startswith('dim1') or l=='flat': k='bad'
            if l=='byte-swapped': k='same'
            put('b',l,k,{'b':x})
        put('b','None','bad',{'b':None}); put('b','absent','bad',{'b':Ellipsis})
    put('unknown','value','bad',{'nosuchargument':3})
    return kw0,cases
NEEDS={'state_index_intrinsics','num_states_intrinsics','state_index_extrinsics','state_index_frames','state_index_points','state_index_calobject_warp','num_states','num_intrinsics_optimization_params',
 'measurement_index_regularization','num_measurements_regularization','num_measurements','pack_state','unpack_state'}
def do_state(it):
    import mrcal
    name,fn=it; f=getattr(mrcal,fn); kw0,cases=state_cases(name,fn)
    def call(kw):
        kw=dict(kw)
        if WHAT[fn] and WHAT[fn] in kw: return f(kw.pop(WHAT[fn]),**kw)
        return f(**kw)
    k=copy.deepcopy(kw0)
    try: base=(call(k),{x:v for x,v in k.items() if isinstance(v,np.ndarray)})
    except Exception: base=None
    outputs={'b'} if WHAT[fn]=='b' else set()
    def valid():
        k=copy.deepcopy(kw0)
        try: r=(call(k),k.get('b'))
        except Exception: r=None
        if (r is None)!=(base is None) or (r is not None and differs(r,(base[0],base[1].get('b')))): return 'the following valid call produced something else'
    def handler(c):
        arg,label,kind,change,drop=c
        kw=copy.deepcopy(kw0)
        for k,v in change.items():
            if v is Ellipsis: kw.pop(k,None)
            else: kw[k]=v
        if kind=='none': kind='any'
        return attempt(call,mk(kw),kind,outputs,base,valid,arg),kind
    return collect(cases,handler,lambda c:'mrcal.%s() of problem "%s": %s=%s'%(fn,name,c[0],c[1]),lambda c:fn+':'+c[0])
def collect(cases,handler,describe,key):
    out=[]; nb=0
    for j,x in session(cases,handler):
        what=describe(cases[j])
        if x[0] in('died','harness'): out.append((key(cases[j]),what,'the process died with signal %s'%x[1] if x[0]=='died' else x[1])); continue
        nb+=x[1]=='bad'
        if x[0]: out.append((key(cases[j]),what,x[0]))
    return len(cases),nb,out
# ------------------------------------------------------------------ the factorization
def do_fact(it):
    import mrcal
    kw=basekw('boards','callback'); b,x,J,F=mrcal.optimizer_callback(**kw); N=len(b)
    bt=np.array([np.cos(np.arange(N)*1.3),np.sin(np.arange(N)*.7)]); base=F.solve_xt_JtJ_bt(bt)
    cases=[]
    for l,k,v in forms(bt):
        if l in('list',): k='any'
        if l in('less-dim','extra-dim'): k='any'
        if l.startswith('dim0'): k='any'
        if l.startswith('dim1') or l in('flat',): k='bad'
        cases.append(('bt',l,k,dict(bt=v)))
    for l,v in (('(0,)',np.zeros(0)),('(3,0)',np.zeros((3,0))),('(0,0)',np.zeros((0,0)))): cases.append(('bt',l,'bad',dict(bt=v)))
    cases+=[('bt','None','bad',dict(bt=None)),('bt','absent','bad',dict(bt=Ellipsis))]
    for y in ('','x','AA','a','CHOLMOD_','L '): cases.append(('sys',y,'bad',dict(sys=y)))
    for y in (None,3,b'A','\ud800','A\0'): cases.append(('sys',repr(y),'bad',dict(sys=y)))
    def edited(**k):
        Q=J.copy()
        for n,v in k.items(): setattr(Q,n,v)
        return Q
    for part in('data','indices','indptr'):
        v=getattr(J,part)
        for l,k,y in forms(v):
            if l.startswith('dim') or l in('list','less-dim','extra-dim','extra-dim-last','0-dim','broadcast'): continue   # not a CSR matrix any more
            y=material(y)
            try: Q=edited(**{part:y})
            except Exception: continue
            cases.append(('J.'+part,l,'same' if k=='same' else 'any',dict(J=Q)))
    for l,y in (('dense',J.toarray()),('coo',J.tocoo()),('csc',J.tocsc()),('None',None),('int',3),('str','x'),('list',[1,2]),('type',type(J))): cases.append(('J',l,'bad',dict(J=y)))
    def call(kw):
        if 'J' in kw: return mrcal.CHOLMOD_factorization(kw['J']).solve_xt_JtJ_bt(bt)
        return F.solve_xt_JtJ_bt(**kw)
    def valid():
        if differs(F.solve_xt_JtJ_bt(bt),base): return 'the following valid call produced something else'
    def handler(c):
        kw=dict(bt=bt.copy()) if 'J' not in c[3] else {}
        for k,v in c[3].items():
            if v is Ellipsis: kw.pop(k)
            else: kw[k]=v
        return attempt(call,mk(kw),c[2],set(),(base,{}),valid,c[0]),c[2]
    return collect(cases,handler,lambda c:'CHOLMOD_factorization.solve_xt_JtJ_bt(): %s=%s'%c[:2],lambda c:'solve:'+c[0])
# ------------------------------------------------------------------ projection, transformations, triangulation
def functions():
    """(name, [(argument,value,shape of one item)], keyword arguments)"""
    import mrcal,probs
    L=[]; s=lambda *sh: .1+np.abs(np.sin(1+np.arange(int(np.prod(sh))))).reshape(sh)
    def add(n,args,**kw): L.append((n,args,kw))
    v,q=s(5,3)+(0,0,1),s(5,2)*300
    for m in ['LENSMODEL_PINHOLE','LENSMODEL_LONLAT','LENSMODEL_OPENCV5','LENSMODEL_CAHVOR',SPL]:
        i=probs.intrinsics(m)
        add('project',[('v',v,(3,)),('lensmodel',m,None),('intrinsics_data',i,i.shape)])
        add('unproject',[('q',q,(2,)),('lensmodel',m,None),('intrinsics_data',i,i.shape)])
        if m!=SPL:
            add('project',[('v',v,(3,)),('lensmodel',m,None),('intrinsics_data',i,i.shape)],get_gradients=True)
            add('unproject',[('q',q,(2,)),('lensmodel',m,None),('intrinsics_data',i,i.shape)],get_gradients=True)
    fx=np.array((600.,610.,500.,400.))
    for w in ('pinhole','stereographic','lonlat','latlon'):
        for g in (False,True):
            add('project_'+w,[('points',v,(3,)),('fxycxy',fx,(4,))],get_gradients=g); add('unproject_'+w,[('points',q,(2,)),('fxycxy',fx,(4,))],get_gradients=g)
    r,rt,x=s(4,3)*.4,s(4,6)*.4,s(4,3); R=mrcal.R_from_r(r); Rt=mrcal.Rt_from_rt(rt)
    for g in (False,True):
        k=dict(get_gradients=g)
        add('rotate_point_R',[('R',R,(3,3)),('x',x,(3,))],**k); add('rotate_point_r',[('r',r,(3,)),('x',x,(3,))],**k)
        add('transform_point_Rt',[('Rt',Rt,(4,3)),('x',x,(3,))],**k); add('transform_point_rt',[('rt',rt,(6,)),('x',x,(3,))],**k)
        add('r_from_R',[('R',R,(3,3))],**k); add('R_from_r',[('r',r,(3,))],**k); add('rt_from_Rt',[('Rt',Rt,(4,3))],**k); add('Rt_from_rt',[('rt',rt,(6,))],**k)
        add('invert_rt',[('rt',rt,(6,))],**k); add('compose_rt',[(0,rt,(6,)),(1,rt+.01,(6,))],**k); add('compose_r',[(0,r,(3,)),(1,r+.01,(3,))],**k)
        for m in ('geometric','leecivera_l1','leecivera_linf','leecivera_mid2','leecivera_wmid2','lindstrom'):
            add('triangulate_'+m,[('v0',s(4,3)+(0,0,2),(3,)),('v1',s(4,3)+(-.3,0,2),(3,)),(mrcal.triangulate_geometric.__code__.co_varnames[2],x[0]-(1,0,0) if m!='lindstrom' else Rt[0],(3,) if m!='lindstrom' else (4,3))],**k)
    add('invert_R',[('R',R,(3,3))]); add('invert_Rt',[('Rt',Rt,(4,3))]); add('compose_Rt',[(0,Rt,(4,3)),(1,Rt,(4,3))])
    add('compose_r_tinyr0_gradientr0',[(0,r,(3,))]); add('compose_r_tinyr1_gradientr1',[(0,r,(3,))]); add('compose_rt_tinyrt0_gradientrt0',[(0,rt,(6,))]); add('compose_rt_tinyrt1_gradientrt1',[(0,rt,(6,))])
    add('R_from_quat',[(0,s(4,4),(4,))]); add('qt_from_Rt',[(0,Rt,(4,3))]); add('Rt_from_qt',[(0,s(4,7),(7,))]); add('skew_symmetric',[(0,x,(3,))]); add('R_aligned_to_vector',[(0,x,(3,))])
    add('apply_homography',[('H',s(3,3),(3,3)),('v',s(4,2),(2,))])
    add('align_procrustes_points_Rt01',[(0,s(7,3)*np.arange(1,8)[:,None],(7,3)),(1,s(7,3)*np.arange(2,9)[:,None]**1.1,(7,3))]); add('align_procrustes_vectors_R01',[(0,s(7,3),(7,3)),(1,s(7,3)+.1,(7,3))])
    return L
PYTHON=('qt_from_Rt','Rt_from_qt','compose_rt_tinyrt0_gradientrt0','compose_rt_tinyrt1_gradientrt1')
def fn_cases(name,args,kw):
    cases=[]
    for ia,(a,v,proto) in enumerate(args):
        def put(l,k,x,**extra): cases.append((a,l,k,ia,x,extra))
        if proto is None:
            for l,k,x in SCAL['lensmodel']:
                if k=='bad' and isinstance(x,str) and NPAR.get(x)==args[2][1].shape[-1]: k='any'
                put(l,k,x)
            continue
        for l,k,x in forms(v):
            if k=='auto' or l in('less-dim','extra-dim','extra-dim-last','flat'):
                b=np.asarray(x); k='any'
                if b.ndim<len(proto) or b.shape[b.ndim-len(proto):]!=tuple(proto): k='bad'
                elif b.size==0: k='any'
                else:
                    # the leading dimensions must broadcast
                    try: np.broadcast_shapes(*[(b if j==ia else o[1]).shape[:(b if j==ia else o[1]).ndim-len(o[2])] for j,o in enumerate(args) if o[2] is not None])
                    except ValueError: k='bad'
            if l=='complex' and name in PYTHON: k='any'
            if l in ('object-array','bool-array','u1','i4','i8','f2','f4','str-array'): k='any'   # may be converted
            if l=='list': k='any'
            if l=='byte-swapped': continue                      # misread by numpysane itself
            put(l,k,x)
        put('None','bad',None)
    return cases
def do_fn(it):
    import mrcal
    name,args,kw=functions()[it]; f=getattr(mrcal,name)
    L=[copy.deepcopy(v) for _,v,_ in args]; base=(f(*L,**kw),{})
    cases=fn_cases(name,args,kw)
    # out=...: right, and wrong in each way
    outs=base[0] if isinstance(base[0],tuple) else (base[0],)
    has_out=True
    try: f(*L,out=base[0] if len(outs)==1 else tuple(outs),**kw)
    except TypeError: has_out=False
    base=(f(*[copy.deepcopy(v) for _,v,_ in args],**kw),{})
    if has_out and name not in('unproject',):
        for i,o in enumerate(outs):
            for l,k,x in forms(o):
                if l in('f4','f2','i4','i8','u1','bool-array','complex','object-array','str-array'): k='bad' if name not in PYTHON else 'any'
                elif l in('fortran','strided-last','strided-first','reversed','unaligned','extra-dim'): k='same' if l!='extra-dim' else 'any'
                elif l in('byte-swapped','broadcast','read-only'): continue      # numpysane itself ignores these
                elif l in('list','bytes','dict'): k='any'
                elif l in('less-dim','flat','0-dim','extra-dim-last'): k='bad'
                elif k=='auto': k='bad' if np.asarray(x).shape!=o.shape else 'any'
                if l in('int','float','str','surrogate','ragged','object','raises-in-array'): k='bad'
                cases.append(('out%d'%i,l,k,None,(i,x),{}))
    def call(k):
        o={}
        if 'out' in k: o['out']=k['out']
        elif any(x.startswith('out') for x in k if isinstance(x,str)): o['out']=tuple(k['out%d'%i] for i in range(len(outs))); o['out']=o['out'][0] if len(outs)==1 else o['out']
        return f(*[k['a%d'%i] for i in range(len(args))],**o,**kw)
    def valid():
        if differs(f(*[copy.deepcopy(v) for _,v,_ in args],**kw),base[0]): return 'the following valid call produced something else'
    def handler(c):
        a,l,k,ia,x,extra=c
        kk={'a%d'%i:material(copy.deepcopy(v) if i!=ia else x) for i,(_,v,_) in enumerate(args)}; outputs=set()
        if ia is None:
            i,x=x
            for j,o in enumerate(outs): kk['out%d'%j]=material(np.zeros_like(o) if j!=i else x); outputs.add('out%d'%j)
            r=attempt(call,kk,k,outputs,base,valid,'out%d'%i)
            # other outputs may have been filled-in before the bad one was seen
            if r and 'an error was raised, but out' in r: r=None
            return r,k
        return attempt(call,kk,k,outputs,base,valid,a),k
    return collect(cases,handler,lambda c:'mrcal.%s(%s): %s=%s'%(name,','.join(map(str,[x[1] for x in args if x[2] is None]+list(kw.items()))),c[0],c[1]),lambda c:'%s:%s'%(name,c[0]))
# ------------------------------------------------------------------ functions of the lens model
def do_lens(it):
    import mrcal
    F=dict(lensmodel_num_params=lambda m: mrcal.lensmodel_num_params(m),lensmodel_metadata_and_config=lambda m: mrcal.lensmodel_metadata_and_config(m),knots_for_splined_models=lambda m: mrcal.knots_for_splined_models(m))
    cases=[(n,l,k,x) for n in F for l,k,x in SCAL['lensmodel']]; b=[mrcal.lensmodel_num_params('LENSMODEL_OPENCV8'),mrcal.knots_for_splined_models(SPL)]
    def handler(c):
        n,l,k,x=c
        if isinstance(x,str) and l in('LENSMODEL_OPENCV12','LENSMODEL_CAHVOR','LENSMODEL_CAHVORE_linearity=0.5') : k='any' if n!='knots_for_splined_models' else 'bad'
        if isinstance(x,str) and 'Nx=11' in l: k='any'
        def valid():
            if differs([mrcal.lensmodel_num_params('LENSMODEL_OPENCV8'),mrcal.knots_for_splined_models(SPL)],b): return 'the following valid call produced something else'
        return attempt(lambda kw: F[n](kw['x']),dict(x=x),k,set(),None,valid,'x'),k
    cases+=[('knots_for_splined_models',m,'bad',m) for m in ('LENSMODEL_PINHOLE','LENSMODEL_OPENCV4')]
    return collect(cases,handler,lambda c:'mrcal.%s(): %s'%c[:2],lambda c:c[0])
FN=dict(opt=do_opt,state=do_state,fact=do_fact,fn=do_fn,lens=do_lens)
def go(it): return FN[it[0]](it[1])
def main(c,b):
    items=[]
    for name in problems():
        for e in ENTRY:
            n=4
            for p in range(n): items.append(('opt',(name,e,False,p,n)))
        for e in (ENTRY if THOROUGH else ('callback',)):
            for p in range(12): items.append(('opt',(name,e,True,p,12)))
    for name in problems():
        for fn in WHAT: items.append(('state',(name,fn)))
    items+=[('fact',0),('lens',0)]+[('fn',i) for i in range(len(functions()))]
    ev=nd=0
    for it,r in zip(items,vf.pmap(go,items,chunk=1)):
        if r[0]!='ok': c.violation('%s:crash'%it[0],'%s %s: %s'%(it[0],str(it[1])[:200],str(r[1])[-300:]),dict(item=str(it)[:500],crash=str(r[1])[-600:])); continue
        n,d,out=r[1]; ev+=n; nd+=d; c.count(it[0],n)
        for a,cfg,what in out: c.violation('%s:%s:%s'%(it[0],a,what[:60]),'%s: %s'%(cfg,what),dict(kind=it[0],what=what,config=cfg))
    return dict(evaluations=ev,distinct_nontrivial=nd,exhaustive=True,
      rule='every argument x every malformation x (all others present, or any one absent). Nontrivial: the call had to be refused')
if __name__=='__main__': vf.main(main,'P31','exploration')
