#!/usr/bin/env python3
"""P20: stereo ranges and unprojection.

Enumerated: rectified systems (both models, off-center ones) x every pixel of a small imager x disparities over the
whole range, given in every number type and scale, as dense images (several memory layouts) and as sparse lists in
every broadcasting arrangement, with limits in pixels and scaled. Oracle: the intersection of the two viewing rays in the epipolar plane."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf,itertools,ctypes
import numpy as np
import ref
import P19
KINDS=P19.KINDS
SYS=[(7,5,6.,5.,3.1,2.2),(4,9,1.5,8.,-.7,3.),(9,3,300.,280.,410.,1.),(6,6,3.,3.,2.5,2.5),(1,1,20.,20.,0.,0.),(5,4,40.,1.7,2.,8.)]
BASE=[.3,17.]
def system(kind,i,ib,ifr):
    import mrcal
    W,H,*f=SYS[i]; r=np.array(P19.FRAMES[ifr],float); ms=[]
    for k in range(2): ms.append(mrcal.cameramodel(intrinsics=(kind,np.array(f)),imagersize=(W,H),rt_cam_ref=r-np.array([0,0,0,BASE[ib]*k,0,0])))
    return ms
def truth(kind,f,b,q,d):
    """the point, and whether it is in front of both cameras"""
    q=np.asarray(q,np.longdouble); d=np.asarray(d,np.longdouble)
    x0=(q[...,0]-f[2])/f[0]; x1=x0-d/f[0]; y=(q[...,1]-f[3])/f[1]
    with np.errstate(all='ignore'):
        if kind=='LENSMODEL_LATLON':
            ok=(np.abs(x0)<1.57)&(np.abs(x1)<1.57); z=b/(np.tan(x0)-np.tan(x1))
            p=np.stack((z*np.tan(x0),z*np.sin(y),z*np.cos(y)),-1)
        else: ok=np.isfinite(x0+x1); z=b/(x0-x1); p=np.stack((z*x0,z*y,z+0*x0),-1)
    return p,ok&(d>0)&np.isfinite(z)
def grid(ms): W,H=ms[0].imagersize(); return np.stack(np.meshgrid(np.arange(W,dtype=float),np.arange(H,dtype=float)),-1)
def judge(kind,ms,b,q,d,r,p,valid=True):
    """q,d: pixels; r ranges, p points or None"""
    P,ok=truth(kind,ms[0].intrinsics()[1],b,q,d)
    ok=ok&valid; R=np.sqrt((P*P).sum(-1)); shape=np.broadcast_shapes(np.shape(d),q.shape[:-1])
    if r is not None:
        if np.shape(r)!=shape: return 'range of shape %s, expected %s'%(np.shape(r),shape)
        zero=np.broadcast_to(~((d>0)&valid),shape); rr=np.asarray(r)
        if (rr[zero]!=0).any(): i=np.argwhere(zero&(rr!=0))[0]; return 'nonzero range %g for disparity %s at %s'%(rr[tuple(i)],np.broadcast_to(d,shape)[tuple(i)],i)
        e=np.abs(rr-R)/R; w=ok&~(e<1e-7)
        if w.any(): i=tuple(np.argwhere(w)[0]); return 'range %g, expected %g, for disparity %g at %s'%(rr[i],R[i],np.broadcast_to(d,shape)[i],np.broadcast_to(q,shape+(2,))[i])
    if p is not None:
        if np.shape(p)!=shape+(3,): return 'points of shape %s, expected %s'%(np.shape(p),shape+(3,))
        zero=np.broadcast_to(~((d>0)&valid),shape)
        if (np.asarray(p)[zero]!=0).any(): return 'nonzero point for an invalid disparity'
        e=np.sqrt(((p-P)**2).sum(-1))/R; w=ok&~(e<1e-7)
        if w.any(): i=tuple(np.argwhere(w)[0]); return 'point %s, expected %s, for disparity %g at %s'%(p[i],P[i],np.broadcast_to(d,shape)[i],np.broadcast_to(q,shape+(2,))[i])
VAL=dict(int=[0,1,2,3,7,16,31,100,127,128,129,255,256,1000,5000,20000,32767,32768,32769,65535,65536,65537,70000,2**31-1,-1,-2,-16,-17,-128,-32768,-65535,-65536,-65537,-2**31],
         float=[0,-0.,.25,.5,.999,1,1.001,1.5,2.75,3,7.9,20.3,100,500.5,1000,-.3,-1,-20.7,-65535.5,1e-3,1e5,np.nan,np.inf,-np.inf])
TYPES=['int8','uint8','int16','uint16','int32','uint32','int64','uint64','float32','float64','float16']
def values(t):
    if t.startswith('float'): v=np.array(VAL['float']); return v[np.abs(v)<6e4 if t=='float16' else slice(None)].astype(t)
    i=np.iinfo(t); return np.array([v for v in VAL['int'] if i.min<=v<=i.max],t)
def layouts(a):
    yield 'dense',a
    yield 'fortran',np.asfortranarray(a)
    if a.ndim==2:
        big=np.zeros((2*a.shape[0],3*a.shape[1]),a.dtype); big[1::2,2::3]=a; yield 'strided',big[1::2,2::3]
        yield 'flipped',a[::-1,::-1].copy()[::-1,::-1]
def call(f,*a,**k):
    try: return f(*a,**k),None
    except Exception as e: return None,e
def LIM(t,s):
    """limits: (kwargs, low in pixels, high in pixels)"""
    o=[({},None,None)]
    mx=32767 if t in ('int16',) else 65535
    for lo,hi in ((None,10.),(2.,None),(2.,10.),(1.7,10.4),(0,500.),(0.,None),(7.,7.5),(.5,1)):
        k={}
        if lo is not None: k['disparity_min']=lo
        if hi is not None: k['disparity_max']=hi
        o.append((k,lo,hi))
    for lo,hi in ((None,128),(3,None),(16,128),(0,mx)):
        k={}
        if lo is not None: k['disparity_scaled_min']=lo
        if hi is not None: k['disparity_scaled_max']=hi
        o.append((k,None if lo is None else lo/s,None if hi is None else hi/s))
    o+=[({'disparity_min':2,'disparity_scaled_max':100},2,100/s),({'disparity_scaled_min':5,'disparity_max':20},5/s,20)]
    return [x for x in o if x[1] is None or x[2] is None or x[1]<x[2]]
def within(d,lo,hi):
    with np.errstate(all='ignore'):
        v=np.isfinite(d)
        if lo is not None: v=v&(d>=lo)
        if hi is not None: v=v&(d<=hi)
    return v
def run(it):
    import mrcal,warnings
    warnings.simplefilter('ignore')
    bad=[]; n=0; px=0
    kind,isys,ib,ifr,t,scales=it
    ms=system(kind,isys,ib,ifr); b=BASE[ib]; g=grid(ms); W,H=ms[0].imagersize(); f=ms[0].intrinsics()[1]
    v=values(t)
    def rep(w,e):
        bad.append('%s system %s baseline %g, %s: %s'%(kind,SYS[isys],b,w,e))
    for s in scales:
        for kw,lo,hi in LIM(t,s):
            k=dict(kw); 
            if s!=1: k['disparity_scale']=s
            # dense images: all the values, at every pixel
            for o in range(0,max(W*H,len(v)),max(1,W*H)) if W*H<len(v) else range(0,len(v)):
                a=v[(np.arange(W*H)+o)%len(v)].reshape(H,W); d=a.astype(float)/s; val=within(d,lo,hi)
                for lay,x in layouts(a) if (o<2 and s==scales[0]) else [('dense',a)]:
                    n+=1; px+=W*H; x0=x.copy()
                    r,e=call(mrcal.stereo_range,x,ms,**k)
                    w='dense %s %s, scale %s, %s'%(t,lay,s,kw)
                    if e is not None: rep(w,'%s %s'%(type(e).__name__,e)); continue
                    if x.tobytes()!=x0.tobytes(): rep(w,'the disparity changed')
                    m=judge(kind,ms,b,g,d,r,None,val)
                    if m: rep(w,m)
                    if not kw:
                        p,e=call(mrcal.stereo_unproject,x,ms,**k); m='%s'%e if e is not None else judge(kind,ms,b,g,d,None,p,val)
                        if m: rep('unproject '+w,m)
                        p,e=call(mrcal.stereo_unproject,None,ms,ranges=r); m='%s'%e if e is not None else judge(kind,ms,b,g,d,None,p,val)
                        if m: rep('unproject the ranges of '+w,m)
            # lists of pixels, in various arrangements
            N=len(v); q=g.reshape(-1,2)[np.arange(N)%(W*H)]+np.array([.3,-.2])
            k16=g.reshape(-1,2)[:3]
            cases=[('list',v,q),('list x pixel',v,q[0]),('one disparity x list',v[N//2:N//2+1],q),('outer',v[:,None],k16),('0-d x pixel',v[min(3,N-1)].reshape(()),q[0]),('numpy scalar x pixel',v[min(4,N-1)],q[1%N]),('0-d x list',np.array(v[min(3,N-1)]),q),('transposed',v[None,:,None],g.transpose(1,0,2)[:,None]),('reversed',v[::-1],q[::-1]),('integer pixels',v,g.reshape(-1,2)[np.arange(N)%(W*H)].astype(int)),('float32 pixels',v,q.astype(np.float32)),('fortran',v,np.asfortranarray(q)),('empty',v[:0],q[:0])]
            cases.append(('number x pixel',v[min(5,N-1)].item(),q[0])); cases.append(('number x list',v[min(5,N-1)].item(),q))
            for what,a,qq in cases:
                n+=1; aa=np.asarray(a); d=aa.astype(float)/s; px+=aa.size
                r,e=call(mrcal.stereo_range,a,ms,qrect0=qq,**k); w='sparse (%s) %s, scale %s, %s'%(what,t,s,kw)
                if e is not None: rep(w,'%s %s'%(type(e).__name__,e)); continue
                m=judge(kind,ms,b,np.asarray(qq,float),d,r,None,within(d,lo,hi))
                if m: rep(w,m)
                if not kw:
                    p,e=call(mrcal.stereo_unproject,a,ms,qrect0=qq,**k); m='%s'%e if e is not None else judge(kind,ms,b,np.asarray(qq,float),d,None,p,within(d,lo,hi))
                    if m: rep('unproject '+w,m)
    return bad[:40],n,px
def points(it):
    """true points, all systems: projected with the library, the disparity, and back"""
    import mrcal
    kind,isys,ib,ifr,_,_=it
    bad=[]; n=0
    ms=system(kind,isys,ib,ifr); b=BASE[ib]
    G=np.array([p for p in itertools.product((-30.,-4.,-.6,0.,.1,1.,9.),(-11.,-1.,0.,.3,5.),(1e-2,.4,3.,80.,1e5) if kind=='LENSMODEL_PINHOLE' else (-40.,-2.,-.1,.4,3.,80.,1e5))])*b
    q=[mrcal.project(G-np.array((k*b,0,0)),*ms[k].intrinsics()) for k in range(2)]
    d=(q[0]-q[1])[:,0]; D=np.linalg.norm(G,axis=-1); R=mrcal.stereo_range(d,ms,qrect0=q[0]); P=mrcal.stereo_unproject(d,ms,qrect0=q[0])
    tol=1e-9+1e-12*np.abs(q[0][:,0])/np.maximum(np.abs(d),1e-300)*10
    use=(tol<1e-3)&(d>0); n+=len(G)
    e=np.abs(R-D)/D
    for i in np.argwhere(use&~(e<tol)).ravel()[:3]: bad.append('%s system %s: %s is at %g, reported %g'%(kind,SYS[isys],G[i],D[i],R[i]))
    e=np.linalg.norm(P-G,axis=-1)/D
    for i in np.argwhere(use&~(e<tol*3)).ravel()[:3]: bad.append('%s system %s: %s unprojected to %s'%(kind,SYS[isys],G[i],P[i]))
    if use.sum()<len(G)*.3: bad.append('few points usable: %d of %d'%(use.sum(),len(G)))
    return bad,n,n
def args(_):
    import mrcal
    bad=[]; n=0
    ms=system(KINDS[0],0,0,0); W,H=ms[0].imagersize(); d=np.ones((H,W)); q=grid(ms)
    def refuse(what,f):
        nonlocal n; n+=1
        try: r=f(); bad.append('%s accepted'%what)
        except Exception as e: pass
    for t in (float,np.int16,np.uint16):
        for s in ((H,W+1),(W,H),(H+1,W),(H,),(W,),(1,),(),(2,H,W),(1,1),(0,0),(1,W),(H,1)): refuse('dense image of shape %s'%(s,),lambda: mrcal.stereo_range(np.ones(s,t),ms))
        sq=system(KINDS[0],3,0,0)
        for s in ((6,),(1,6),(6,1),(1,6,6)): refuse('dense image of shape %s for 6x6'%(s,),lambda: mrcal.stereo_range(np.ones(s,t),sq))
    for a in ((d,dict(disparity_min=3,disparity_max=2)),(d,dict(disparity_min=3,disparity_scaled_min=2)),(d,dict(disparity_max=3,disparity_scaled_max=2)),(d.astype(np.uint16),dict(disparity_scaled_min=30,disparity_scaled_max=2)),(d,dict(qrect0=q[:3,:4])),(d,dict(qrect0=q[...,:1])),(d,dict(qrect0=q[0,0,0]))):
        refuse('%s'%a[1],lambda: mrcal.stereo_range(a[0],ms,**a[1]))
    for a in ((None,{}),(d,dict(ranges=d))): refuse('unproject disparity %r, %r'%(a[0] is not None,a[1].keys()),lambda: mrcal.stereo_unproject(a[0],ms,**a[1]))
    f=ms[0].intrinsics()[1]; rt=ms[1].rt_cam_ref()
    def mod(intr=None,size=None,drt=None):
        return mrcal.cameramodel(intrinsics=intr or ms[1].intrinsics(),imagersize=size or ms[1].imagersize(),rt_cam_ref=rt+(0 if drt is None else np.array(drt)))
    for what,m in (('kind',mod((KINDS[1],f))),('intrinsics',mod((KINDS[0],f*1.1))),('size',mod(size=(W+1,H))),('rotation',mod(drt=(.1,0,0,0,0,0))),('y',mod(drt=(0,0,0,0,.1,0))),('z',mod(drt=(0,0,0,0,0,.1)))):
        for dd,k in ((d,{}),(d.ravel(),dict(qrect0=q.reshape(-1,2)))): refuse('models differing in %s'%what,lambda: mrcal.stereo_range(dd,(ms[0],m),**k))
    for k in ('LENSMODEL_LONLAT','LENSMODEL_STEREOGRAPHIC'):
        mm=[mrcal.cameramodel(intrinsics=(k,f),imagersize=(W,H),rt_cam_ref=m.rt_cam_ref()) for m in ms]
        for dd,kk in ((d,{}),(d.ravel(),dict(qrect0=q.reshape(-1,2)))): refuse(k,lambda: mrcal.stereo_range(dd,mm,**kk))
    return bad,n,n
def capi_(it):
    """the C functions: images with row padding; every disparity of a 16-bit image"""
    kind,=it
    import mrcal,capi
    L=capi.lib(); bad=[]; n=0
    class Im(ctypes.Structure): _fields_=[('w',ctypes.c_int),('h',ctypes.c_int),('stride',ctypes.c_int),('data',ctypes.c_void_p)]
    F=L.mrcal_stereo_range_dense; F.restype=ctypes.c_bool
    F.argtypes=[ctypes.c_void_p,ctypes.c_void_p,ctypes.c_uint16,ctypes.c_uint16,ctypes.c_uint16,ctypes.c_int,ctypes.c_void_p,ctypes.c_double]
    types=dict(zip(KINDS,(L.mrcal_lensmodel_type_from_name(k.encode()) for k in KINDS)))
    f=np.array([70.,80.,130.,20.]); W=256; H=256; fx=np.array([40000.,3000.,20000.,90.])
    for f in (np.array([70.,80.,130.,20.]),np.array([40000.,3000.,20000.,90.])):
      for s in (1,16,7,65535):
        for lo,hi in ((0,65535),(100,40000),(1,2),(65534,65535)):
          for pad in (0,3):
            n+=1
            src=np.full((H,W+pad),77,np.uint16); src[:,:W]=np.arange(65536).reshape(256,256); dst=np.full((H,W+2*pad),-5.)
            ok=F(ctypes.byref(Im(W,H,dst.strides[0],dst.ctypes.data)),ctypes.byref(Im(W,H,src.strides[0],src.ctypes.data)),s,lo,hi,types[kind],f.ctypes.data,.7)
            if not ok: bad.append('%s dense failed'%kind); continue
            d=src[:,:W].astype(float)/s; q=np.stack(np.meshgrid(np.arange(W,dtype=float),np.arange(H,dtype=float)),-1)
            P,good=truth(kind,f,.7,q,d); R=np.sqrt((P*P).sum(-1)); val=(src[:,:W]>=lo)&(src[:,:W]<=hi)&(src[:,:W]>0); r=dst[:,:W]
            if (r[~val]!=0).any(): bad.append('%s dense limits %s: nonzero outside'%(kind,(lo,hi)))
            w=good&val&~(np.abs(r-R)<1e-7*R)
            if w.any(): i=tuple(np.argwhere(w)[0]); bad.append('%s dense f %s scale %d limits %s: %g, expected %g at %s'%(kind,f,s,(lo,hi),r[i],R[i],i))
            if (dst[:,W:]!=-5).any(): bad.append('wrote the padding')
    d1=np.zeros((3,3)); s1=np.ones((3,3),np.uint16)
    for what,a in (('size',(Im(3,3,24,d1.ctypes.data),Im(2,3,6,s1.ctypes.data),1,0,9,types[kind])),('size',(Im(3,3,24,d1.ctypes.data),Im(3,2,6,s1.ctypes.data),1,0,9,types[kind])),('limits',(Im(3,3,24,d1.ctypes.data),Im(3,3,6,s1.ctypes.data),1,9,9,types[kind])),('limits',(Im(3,3,24,d1.ctypes.data),Im(3,3,6,s1.ctypes.data),1,10,9,types[kind])),('model',(Im(3,3,24,d1.ctypes.data),Im(3,3,6,s1.ctypes.data),1,0,9,L.mrcal_lensmodel_type_from_name(b'LENSMODEL_LONLAT')))):
        n+=1
        if F(ctypes.byref(a[0]),ctypes.byref(a[1]),*a[2:],f.ctypes.data,.7) or d1.any(): bad.append('wrong %s accepted'%what)
    return bad,n,n*65536
def main(c,b):
    th=vf.TIER=='thorough'; items=[('args',0)]+[('capi',(k,)) for k in KINDS]
    for kind in KINDS:
        for i in range(len(SYS)):
            for ib in range(2): items.append(('points',(kind,i,ib,ib,0,0)))
            for t in TYPES:
                sc=(1,16,3,2.5) if t.startswith('f') or not th else (1,16,3,2.5,256)
                for ib in range(2) if th else [i%2]: items.append(('run',(kind,i,ib,(i+ib)%2,t,sc if th else sc[:4:1+(i%2)])))
    n=px=0
    for it,r in zip(items,vf.pmap(go,items,chunk=1)):
        if r[0]!='ok': c.violation('crash','%s: %s'%(str(it)[:100],str(r[1])[-400:]),dict(item=str(it))); continue
        bad,k,p=r[1]; n+=k; px+=p
        for x in bad: c.violation(it[0],x,dict(item=str(it),got=x))
    c.sample(dict(systems=SYS,types=TYPES,limits=[str(x[0]) for x in LIM('int16',16)]))
    return dict(evaluations=n,distinct_nontrivial=n,disparities=px,exhaustive=True,rule='evaluation: one call, over every system, number type, scale, limits and arrangement of the lists; disparities: those judged, each at its pixel')
def go(it): return dict(args=args,capi=capi_,points=points,run=run)[it[0]](it[1])
if __name__=='__main__': vf.main(main,'P20','exploration')
