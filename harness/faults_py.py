"""Run with the preload library: one Python-module operation, every allocation failing in turn.
Prints json"""
import sys,os,json,ctypes,io,tempfile,signal
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import numpy as np, mrcal, probs
L=ctypes.CDLL(None)
L.vf_caller.restype=ctypes.c_void_p; L.vf_skip.argtypes=[ctypes.c_size_t]*2; L.vf_arm.argtypes=[ctypes.c_long,ctypes.c_int]
def where(a):
    for l in open('/proc/self/maps'):
        r,_,_,_,_,*f=l.split(); x,y=(int(v,16) for v in r.split('-'))
        if x<=a<y: return os.path.basename(f[0]) if f else '?'
    return '?'
def skiplibs(names):
    for l in open('/proc/self/maps'):
        r,_,_,_,_,*f=l.split()
        if f and any(n in os.path.basename(f[0]) for n in names): L.vf_skip(*(int(v,16) for v in r.split('-')))
def norm(x):
    if isinstance(x,np.ndarray): return ('a',x.dtype.str,x.shape,x.tobytes())
    if isinstance(x,(tuple,list)): return tuple(norm(y) for y in x)
    if isinstance(x,dict): return tuple((k,norm(x[k])) for k in sorted(x))
    if hasattr(x,'tobytes'): return x.tobytes()
    if hasattr(x,'indices'): return (norm(x.indices),norm(x.indptr),norm(x.data),x.shape)
    if isinstance(x,(int,float,str,bool,bytes,type(None))): return repr(x)
    return type(x).__name__
class Either(tuple):
    """results, and a last one which may be None"""
def solves(F,J):
    """orderings may differ when memory is short, so the roundoff may"""
    L.vf_disarm()
    bt=np.ascontiguousarray(J.T.dot(J.dot(np.cos(np.arange(3.*J.shape[1])).reshape(3,-1).T)).T)
    x=F.solve_xt_JtJ_bt(bt)
    return bool(np.max(np.abs(J.T.dot(J.dot(x.T)).T-bt))<1e-7*np.max(np.abs(bt)))
def usefact(r):
    b,x,J,F=r
    return Either((b,x,J,None if F is None else solves(F,J)))
def same(x,ref,either): return x==ref or (either and x[:-1]==ref[:-1] and x[-1]==repr(None))
def ops(d):
    """name -> (prepare() -> args, call(args))"""
    O={}
    for name,p in PROBS().items():
        O['optimizer_callback '+name]=(lambda p=p: p(),lambda k: usefact(mrcal.optimizer_callback(no_factorization=False,**k)))
        O['optimizer_callback, no jacobian '+name]=(lambda p=p: p(),lambda k: mrcal.optimizer_callback(no_jacobian=True,no_factorization=True,**k))
        O['optimize '+name]=(lambda p=p: p(),lambda k: (mrcal.optimize(**k),{a:k[a] for a in k if isinstance(k[a],np.ndarray)}))
        O['num_states, num_measurements '+name]=(lambda p=p: p(),lambda k: (mrcal.num_states(**k),mrcal.num_measurements(**k)))
        def pk(k):
            b=np.arange(mrcal.num_states(**k))*1.; mrcal.pack_state(b,**k); c=b.copy(); mrcal.unpack_state(b,**k); return b,c
        O['pack_state, unpack_state '+name]=(lambda p=p: p(),pk)
    k0=PROBS()['boards']()
    J=mrcal.optimizer_callback(**k0)[2]
    def f1(J):
        F=mrcal.CHOLMOD_factorization(J); return solves(F,J)
    O['CHOLMOD_factorization']=(lambda: J,f1)
    bt=np.arange(40.*J.shape[1]).reshape(40,-1)
    for c in 'A','LDLt','L','Lt','P','Pt': O['solve_xt_JtJ_bt '+c]=(lambda: mrcal.CHOLMOD_factorization(J),lambda F,c=c: F.solve_xt_JtJ_bt(bt,sys=c))
    O['rcond']=(lambda: mrcal.CHOLMOD_factorization(J),lambda F: F.rcond())
    def drtp(): return PROBS()["boards"]()
    O['drt_cross_reprojection__dbpacked']=(drtp,lambda a: mrcal.drt_cross_reprojection__dbpacked(**a))
    im8=(np.arange(13*9)%251).astype(np.uint8).reshape(9,13); im16=(np.arange(13*9)*401).astype(np.uint16).reshape(9,13); im24=np.dstack((im8,im8+1,im8+2))
    for i,im in (('8',im8),('16',im16),('24',im24)):
        for e in ('png','jpg','pgm','ppm'):
            fn=os.path.join(d,'i%s.%s'%(i,e))
            try: mrcal.save_image(fn,im)
            except Exception: continue
            O['save_image %s %s'%(i,e)]=(lambda: None,lambda _,fn=fn,im=im: (mrcal.save_image(fn,im),open(fn,'rb').read()))
            O['load_image %s %s'%(i,e)]=(lambda fn=fn,im=im: mrcal.save_image(fn,im),lambda _,fn=fn: mrcal.load_image(fn))
    n='LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=11_Ny=8_fov_x_deg=120'
    O['lens model functions']=(lambda: None,lambda _: (mrcal.lensmodel_metadata_and_config(n),mrcal.lensmodel_num_params(n),mrcal.knots_for_splined_models(n),mrcal.supported_lensmodels()))
    O['traverse_sensor_links']=(lambda: None,lambda _: trav())
    return O
def trav():
    out=[]
    M=np.array([[0,3,1,0],[3,0,0,2],[1,0,0,5],[0,2,5,0]],dtype=np.uint16)
    mrcal.traverse_sensor_links(connectivity_matrix=M,callback_sensor_link=lambda a,b: out.append((a,b)))
    return out
def PROBS():
    P=probs.Prob
    return dict(boards=P(model='LENSMODEL_OPENCV4',Nf=4,W=5,H=4).kw,
                points=P(model='LENSMODEL_PINHOLE',Nf=0,boards=[],Np=6,Npf=3,warp=False,sens=((0,-1),(1,0)),sel=dict(core=0,dist=0,frames=1,warp=0,reg=0)).kw,
                triangulated=P(model='LENSMODEL_PINHOLE',Nf=0,boards=[],Np=0,warp=False,tri=[(0,1),(0,1),(1,0),(0,1),(0,1),(0,1)],sel=dict(core=0,dist=0,frames=0,warp=0,reg=0)).kw)
def run(op,name,maxn,tier):
    prep,call=op
    ref=norm(call(prep()))
    ref=norm(call(prep()))
    # is the result reproducible at all
    bad=[]; n=0; stats={}
    for sticky in (0,1):
        k=0
        while k<maxn:
            r,w=os.pipe(); pid=os.fork()
            if pid==0:
                signal.alarm(20)
                a=prep()
                L.vf_arm(k,sticky)
                res=None; exc=None
                try: res=call(a)
                except BaseException as e: exc=e
                L.vf_disarm()
                if not L.vf_fired(): os._exit(7)
                out=[]
                if exc is None and not same(norm(res),ref,isinstance(res,Either)): out.append('success with a different result')
                if exc is not None and not isinstance(exc,(MemoryError,RuntimeError,SystemError,ValueError,Exception)): out.append('raised '+repr(exc)[:100])
                try: again=norm(call(prep()))
                except Exception as e: again=repr(e)[:200]; out.append('the same call afterwards: '+again)
                else:
                    if again!=ref: out.append('the same call afterwards has a different result')
                os.write(w,json.dumps([where(L.vf_caller()),out,'ok' if exc is None else type(exc).__name__]).encode()); os._exit(0)
            os.close(w); d=b''
            while True:
                x=os.read(r,65536)
                if not x: break
                d+=x
            os.close(r); st=os.waitpid(pid,0)[1]
            if os.WIFEXITED(st) and os.WEXITSTATUS(st)==7: break
            n+=1
            if not d: bad.append((name,k,sticky,'the process died: '+('signal %d'%os.WTERMSIG(st) if os.WIFSIGNALED(st) else 'exit %d'%os.WEXITSTATUS(st))))
            else:
                wh,out,how=json.loads(d); stats[wh+' '+how]=stats.get(wh+' '+how,0)+1
                for o in out: bad.append((name,k,sticky,'allocation in %s: '%wh+o))
            k+=1
    return bad,n,stats
if __name__=='__main__':
    skiplibs(json.loads(sys.argv[1]))
    null=os.open(os.devnull,os.O_WRONLY)
    if os.environ.get('VF_STDERR')!='1': os.dup2(null,2)
    with tempfile.TemporaryDirectory() as d:
        O=ops(d)
        if len(sys.argv)>2:
            i=sys.argv[2]
            if i=='list': print(json.dumps(list(O)))
            else:
                for nm in json.loads(i):
                    b,n,s=run(O[nm],nm,int(sys.argv[3]),None)
                    print(json.dumps([nm,b,n,s])); sys.stdout.flush()
