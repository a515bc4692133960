"""The C library, through ctypes (the built tree's libmrcal.so)"""
import ctypes as C, os, numpy as np
_lib=None
def lib():
    global _lib
    if _lib is None:
        _lib=C.CDLL(os.path.join(os.environ['VF_BDIR'],'libmrcal.so'))
        for n in ('mrcal_project','mrcal_unproject','mrcal_lensmodel_from_name','mrcal_lensmodel_name','mrcal_knots_for_splined_models'):
            getattr(_lib,n).restype=C.c_bool
        _lib.mrcal_supported_lensmodel_names.restype=C.POINTER(C.c_char_p)
        _lib.mrcal_lensmodel_name_unconfigured.restype=C.c_char_p
    return _lib
def D(a):
    if a is None: return None
    assert a.flags.c_contiguous and a.dtype==np.float64
    return C.c_void_p(a.ctypes.data)
class Model:
    def __init__(s,name):
        s.buf=C.create_string_buffer(256)
        s.ok=lib().mrcal_lensmodel_from_name(s.buf,name.encode())
        if not s.ok: raise ValueError(name)
        s.n=lib().mrcal_lensmodel_num_params(s.buf)
G=-77.25
def project(name,intr,p,dp=False,di=False):
    """q,dq_dp,dq_dintrinsics; each has a guard after it, which is checked"""
    m=Model(name); N=len(p); p=np.ascontiguousarray(p,float); intr=np.ascontiguousarray(intr,float)
    q=np.full(N*2+4,G); a=np.full(N*6+4,G) if dp else None; b=np.full(N*2*m.n+4,G) if di else None
    r=lib().mrcal_project(D(q),D(a),D(b),D(p),N,m.buf,D(intr))
    for x,n in ((q,N*2),(a,N*6),(b,N*2*m.n)):
        if x is not None and (x[n:]!=G).any(): raise MemoryError('wrote past the end of an output')
    return r,q[:N*2].reshape(N,2),(a[:N*6].reshape(N,2,3) if dp else None),(b[:N*2*m.n].reshape(N,2,m.n) if di else None)
def unproject(name,intr,q):
    m=Model(name); N=len(q); q=np.ascontiguousarray(q,float); intr=np.ascontiguousarray(intr,float)
    v=np.full(N*3+4,G)
    r=lib().mrcal_unproject(D(v),D(q),N,m.buf,D(intr))
    if (v[N*3:]!=G).any(): raise MemoryError('wrote past the end of the output')
    return r,v[:N*3].reshape(N,3)
def simple(kind,what,x,fxycxy,grad):
    """kind: pinhole,...; what: project/unproject"""
    N=len(x); x=np.ascontiguousarray(x,float); k=np.ascontiguousarray(fxycxy,float)
    no=2 if what=='project' else 3
    o=np.full(N*no+4,G); g=np.full(N*6+4,G) if grad else None
    getattr(lib(),'mrcal_%s_%s'%(what,kind))(D(o),D(g),D(x),N,D(k))
    if (o[N*no:]!=G).any() or (grad and (g[N*6:]!=G).any()): raise MemoryError('wrote past the end of an output')
    return o[:N*no].reshape(N,no),(g[:N*6].reshape((N,2,3) if no==2 else (N,3,2)) if grad else None)
