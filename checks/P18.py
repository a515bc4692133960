#!/usr/bin/env python3
"""P18: color-coding arrays.

Enumerated: every palette function (and beyond) of every channel over a grid of values; every number type x all small
arrays over an alphabet spanning the type's range x automatic and all explicit limits; shapes, memory layouts,
broadcasting, output arrays; the C functions with all combinations of automatic limits and functions. Against the
documented palette, evaluated in extended precision."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf,itertools,ctypes
import numpy as np
LD=np.longdouble
d2r=np.arctan2(LD(0),LD(-1))/180
F={0:lambda x: 0*x,1:lambda x: 0*x+.5,2:lambda x: 0*x+1,3:lambda x: x,4:lambda x: x**2,5:lambda x: x**3,6:lambda x: x**4,7:np.sqrt,8:lambda x: np.sqrt(np.sqrt(x)),
 9:lambda x: np.sin(90*d2r*x),10:lambda x: np.cos(90*d2r*x),11:lambda x: abs(x-.5),12:lambda x: (2*x-1)**2,13:lambda x: np.sin(180*d2r*x),14:lambda x: abs(np.cos(180*d2r*x)),
 15:lambda x: np.sin(360*d2r*x),16:lambda x: np.cos(360*d2r*x),17:lambda x: abs(np.sin(360*d2r*x)),18:lambda x: abs(np.cos(360*d2r*x)),19:lambda x: abs(np.sin(720*d2r*x)),20:lambda x: abs(np.cos(720*d2r*x)),
 21:lambda x: 3*x,22:lambda x: 3*x-1,23:lambda x: 3*x-2,24:lambda x: abs(3*x-1),25:lambda x: abs(3*x-2),26:lambda x: (3*x-1)/2,27:lambda x: (3*x-2)/2,28:lambda x: abs((3*x-1)/2),29:lambda x: abs((3*x-2)/2),
 30:lambda x: x/LD('.32')-LD('.78125'),31:lambda x: 2*x-LD('.84'),32:lambda x: np.where(x<=LD('.42'),4*x,np.where(x<=LD('.92'),LD('1.84')-2*x,x/LD('.08')-LD('11.5'))),
 33:lambda x: abs(2*x-.5),34:lambda x: 2*x,35:lambda x: 2*x-.5,36:lambda x: 2*x-1}
def color(f,x): return 255*np.clip(F[abs(f)](1-x if f<0 else x),0,1)
def bgr(x,fr=7,fg=5,fb=15): return np.stack([color(f,x) for f in (fb,fg,fr)],-1)
def frac(a,lo,hi):
    """a value's place between the limits, saturated"""
    a=a.astype(LD); lo,hi=LD(lo),LD(hi)
    with np.errstate(all='ignore'): x=np.clip((a/4-lo/4)/(hi/4-lo/4),0,1) if hi>lo else a*0
    return np.where(a<=lo,0,np.where(a>=hi,1,x)).astype(LD)
def differs(out,ref,tol=.51): return out.shape!=ref.shape or out.dtype!=np.uint8 or bool((abs(out.astype(LD)-ref)>tol).any())
TYPES=dict(uint8=np.uint8,uint16=np.uint16,uint32=np.uint32,uint64=np.uint64,int8=np.int8,int16=np.int16,int32=np.int32,int64=np.int64,float=np.float32,double=np.float64)
def alphabet(t):
    dt=TYPES[t]
    if t in ('float','double'):
        m=np.finfo(dt)
        v=[-m.max,-1e10,-3.5,-1,-m.tiny,0,m.tiny,.25,1,1.5,1e10,m.max/2,m.max]
    else:
        i=np.iinfo(dt); q=(int(i.max)-int(i.min))//3
        v=[i.min,i.min+1,i.min+2,i.min+q,0,1,2,7,i.max-q,i.max//2,i.max//2+1,i.max-1,i.max]
        if i.min<0: v+=[-1,-2,-7]
    return np.unique(np.array([int(x) if t not in ('float','double') else x for x in v],dtype=object)).astype(dt)
def palettes(rng):
    import mrcal
    bad=[]; n=0
    grids=[np.linspace(0,1,513)[None],np.array([[0,.42,.419999,.4200001,.92,.9199999,.9200001,.25,.57,1/3,2/3,.5,1e-9,1e-30,1-1e-7,1]])]
    for f in rng:
        for c in range(3):
            fs=[11,26,35]; fs[c]=f
            for g in grids:
                n+=1
                kw=dict(function_red=fs[0],function_green=fs[1],function_blue=fs[2])
                try: out=mrcal.apply_color_map(g,a_min=0.,a_max=1.,**kw)
                except Exception as e: out=e
                if abs(f)>36:
                    if not isinstance(out,Exception): bad.append('function %d accepted'%f)
                    continue
                if isinstance(out,Exception): bad.append('function %d: %r'%(f,out)); continue
                ref=bgr(g.astype(LD),*fs)
                if differs(out,ref): bad.append('functions red,green,blue=%s: wrong at %s'%(fs,g.ravel()[np.argmax(abs(out.astype(LD)-ref).max(-1).ravel())] if out.shape==ref.shape else out.shape))
    return bad,n,{}
def values(item):
    """all arrays of 3 values x all limits"""
    import mrcal
    t,first,funcs,th=item; bad=[]; n=0; known={}
    V=alphabet(t); dt=TYPES[t]; isf=t in ('float','double')
    if isf: tlo,thi=float(np.finfo(dt).min),float(np.finfo(dt).max)
    else: tlo,thi=int(np.iinfo(dt).min),int(np.iinfo(dt).max)
    lims=[None]+[float(v) for v in V]+[x for x in (.5,-1.5,300.25,-1e30,1e30,float(thi)*3 if thi<1e300 else 1e307,float(tlo)*3 if tlo>-1e300 else -1e307,) ]
    for k in funcs:
        fs=dict(zip(('function_red','function_green','function_blue'),k))
        for b,c in itertools.product(V,V):
            a=np.array([[V[first],b,c]],dt)
            for lo,hi in itertools.product(lims,lims):
                if lo is not None and hi is not None and (not lo<=hi or b!=V[0] or c!=V[-1]): continue # explicit limits: nothing depends on the other values
                if not th and (lo is None)!=(hi is None) and c!=b: continue
                L=int(a.min()) if not isf and lo is None else (float(a.min()) if lo is None else lo)
                H=int(a.max()) if not isf and hi is None else (float(a.max()) if hi is None else hi)
                if H<L or lo==np.finfo(float).max or hi==np.finfo(float).tiny: continue # these two mean 'not given'
                if not isf and isinstance(L,float) and L==int(L): L=int(L)
                if not isf and isinstance(H,float) and H==int(H): H=int(H)
                kw=dict(fs)
                if lo is not None: kw['a_min']=lo
                if hi is not None: kw['a_max']=hi
                n+=1
                out=mrcal.apply_color_map(a,**kw)
                ref=bgr(frac(a,L,H),*k)
                if L==H: # both ends at the same value
                    ref2=bgr(np.where(a.astype(LD)<LD(L),LD(0),LD(1)),*k)
                    d=(abs(out.astype(LD)-ref)>.51).any(-1)&(abs(out.astype(LD)-ref2)>.51).any(-1); d=out.shape!=ref.shape or d.any()
                else: d=differs(out,ref)
                if not d: continue
                # limits that the type can't represent
                rep=lambda x: tlo<=x<=thi and (isf or x==int(x))
                if not rep(L) or not rep(H):
                    q=lambda x: (min(max(x,tlo),thi) if isf else int(min(max(x,tlo),thi)))
                    l2,h2=q(L),q(H)
                    r2=bgr(frac(a,l2,h2),*k); r3=bgr(np.where(a.astype(LD)<LD(l2),LD(0),LD(1)),*k)
                    if not differs(out,r2) or (h2<=l2 and not differs(out,r3)): known.setdefault('limit-not-representable','%s array %s with a_min=%s a_max=%s'%(t,a.tolist(),lo,hi)); continue
                if len(bad)<10: bad.append('%s array %s a_min=%s a_max=%s functions %s: %s instead of %s'%(t,a.tolist(),lo,hi,k,out.tolist(),ref.astype(float).round(1).tolist()))
    return bad,n,known
def shapes(item):
    import mrcal
    bad=[]; n=0; known={}
    dt=TYPES[item]; isf=item in ('float','double')
    def make(sh,s=0):
        N=int(np.prod(sh)); v=(np.arange(N)*7919+s*31)%101+(0 if item[0]=='u' else -50)
        return (v*(1 if not isf else .25)).astype(dt).reshape(sh)
    for sh in [()]+[(k,) for k in (0,1,2,5)]+list(itertools.product((0,1,2,3,7),repeat=2))+list(itertools.product((0,1,2,3),(1,2,3),(1,2,5)))+[(2,1,3,4),(2,2,2,2),(1,1,1,1,3)]:
        a=make(sh)
        lays={'dense':a}
        if a.ndim>=1 and a.size:
            w=sh[-1]
            big=np.full(sh[:-1]+(w+5,),99,dt); big[...,2:2+w]=a; lays['padded']=big[...,2:2+w]
            if a.ndim>1:
                lays['flipped rows']=a[...,::-1,:].copy()[...,::-1,:]
                b=np.full(sh[:-2]+(sh[-2]*2,w),99,dt); b[...,::2,:]=a; lays['other rows']=b[...,::2,:]
                lays['transposed']=np.ascontiguousarray(np.swapaxes(a,-1,-2)).swapaxes(-1,-2)
                if a.ndim>2: lays['leading axis last']=np.ascontiguousarray(np.moveaxis(a,0,-1)).transpose((a.ndim-1,)+tuple(range(a.ndim-1)))
                if (a.shape[-2]==1): lays['repeated']=np.broadcast_to(a,a.shape)
            b=np.full(sh[:-1]+(2*w,),99,dt); b[...,::2]=a; lays['other columns']=b[...,::2]
            lays['flipped columns']=a[...,::-1].copy()[...,::-1]
        for l,v in lays.items():
            assert (v==a).all()
            for lo,hi in ((None,None),(None,20.),(5.,None),(3.,40.)):
                kw={}
                if lo is not None: kw['a_min']=lo
                if hi is not None: kw['a_max']=hi
                for useout in (None,'dense','padded'):
                    if useout and (a.ndim<2 or a.size==0): continue
                    n+=1; full=None
                    if useout=='dense': kw['out']=np.full(sh+(3,),123,np.uint8)
                    if useout=='padded': full=np.full(sh[:-1]+(sh[-1]+3,3),123,np.uint8); kw['out']=full[...,1:1+sh[-1],:]
                    what='%s shape %s %s a_min=%s a_max=%s out=%s'%(item,sh,l,lo,hi,useout)
                    try: out=mrcal.apply_color_map(v,**kw)
                    except Exception as e:
                        if l in ('dense','padded','flipped rows','other rows') and (a.size or a.ndim<3): bad.append('%s: %r'%(what,e))
                        continue
                    if not (v==a).all(): bad.append(what+': the input was changed')
                    if useout:
                        if out is not kw['out']: bad.append(what+': out not returned')
                        if full is not None and ((full[...,0,:]!=123).any() or (full[...,-2:,:]!=123).any()): bad.append(what+': wrote outside the output')
                    if a.size==0:
                        if out.shape!=sh+(3,):
                            if a.ndim<2 and out.shape==(1,)*(2-a.ndim)+sh+(3,): known['shape-not-2d']=what
                            else: bad.append(what+': shape %s'%(out.shape,))
                        continue
                    L=a.min() if lo is None else lo; H=a.max() if hi is None else hi
                    if H<L: continue
                    ref=bgr(frac(a,L,H))
                    if L==H: ref=None
                    if out.shape!=sh+(3,) and a.ndim<2 and out.shape==(1,)*(2-a.ndim)+sh+(3,): known['shape-not-2d']=what; out=out.reshape(sh+(3,))
                    if ref is None:
                        if out.shape!=sh+(3,) or out.dtype!=np.uint8 or ((out!=out.reshape(-1,3)[:1]).any() if a.min()==a.max() else False): bad.append(what+': flat array: %s'%out.tolist())
                        continue
                    if differs(out,ref):
                        if a.ndim>2 and (lo is None or hi is None):
                            # separately for each slice?
                            r2=np.array([bgr(frac(s,s.min() if lo is None else lo,s.max() if hi is None else hi)) for s in a.reshape((-1,)+sh[-2:])]).reshape(sh+(3,))
                            fl=np.array([np.broadcast_to((s.min() if lo is None else lo)>=(s.max() if hi is None else hi),s.shape) for s in a.reshape((-1,)+sh[-2:])]).reshape(sh)
                            if out.shape==r2.shape and not (abs(out.astype(LD)-r2)>.51)[~fl].any(): known['nd-auto-limits']=what; continue
                        bad.append('%s: %s'%(what,out.reshape(-1,3)[:3].tolist()))
    for x in ('bool','float16','complex64','complex128','S1','O'):
        n+=1
        try: out=mrcal.apply_color_map(np.ones((2,3)).astype(x)); bad.append('type %s accepted'%x)
        except Exception: pass
    return bad[:20],n,known
class Im(ctypes.Structure):
    _fields_=[('w',ctypes.c_int),('h',ctypes.c_int),('stride',ctypes.c_int),('data',ctypes.c_void_p)]
def capi_(t):
    """the C functions: independent automatic limits, automatic functions, strides, mismatched sizes"""
    import capi
    f=getattr(capi.lib(),'mrcal_apply_color_map_'+t); dt=TYPES[t]; CT=np.ctypeslib.as_ctypes_type(dt)
    f.argtypes=[ctypes.POINTER(Im)]*2+[ctypes.c_bool]*3+[CT]*2+[ctypes.c_int]*3; f.restype=ctypes.c_bool
    bad=[]; n=0; V=alphabet(t)
    for h,w,pi,po in itertools.product((1,2,3),(1,2,4),(0,3),(0,5)):
        a=np.resize(V[np.arange(1,1+len(V)*7,5)%len(V)],(h,w)).astype(dt)
        for am,aM,af in itertools.product((0,1),repeat=3):
            for lo,hi in ((V[1],V[-2]),(V[2],V[5]),(V[0],V[-1])):
                for fs in ((3,3,3),(-21,10,36),(0,1,2),(7,37,5),(7,5,-37)):
                    n+=1
                    src=np.zeros((h,w+pi),dt); src[:]=V[-1]; src[:,:w]=a; dst=np.full((h,3*w+po),9,np.uint8)
                    I=Im(w,h,src.strides[0],src.ctypes.data); O=Im(w,h,dst.strides[0],dst.ctypes.data)
                    r=f(O,I,am,aM,af,lo.item(),hi.item(),*fs)
                    what='C %s %dx%d auto_min=%d auto_max=%d auto_function=%d limits %s %s functions %s'%(t,w,h,am,aM,af,lo,hi,fs)
                    if not af and any(abs(x)>36 for x in fs):
                        if r: bad.append(what+': accepted')
                        continue
                    if not r: bad.append(what+': failed'); continue
                    L=a.min() if am else lo; H=a.max() if aM else hi
                    if not L<H: continue
                    out=dst[:,:3*w].reshape(h,w,3)
                    if differs(out,bgr(frac(a,L,H),*((7,5,15) if af else fs))): bad.append('%s: %s for %s'%(what,out.tolist(),a.tolist()))
                    if (dst[:,3*w:]!=9).any(): bad.append(what+': wrote outside')
        for dw,dh in ((1,0),(0,1),(-1,0),(0,-1)):
            n+=1; dst=np.full((h+2,3*w+30),9,np.uint8)
            r=f(Im(w+dw,h+dh,dst.strides[0],dst.ctypes.data),Im(w,h,a.strides[0],a.ctypes.data),1,1,1,0,0,0,0,0)
            if r or (dst!=9).any(): bad.append('C %s: images of different sizes accepted'%t)
    return bad[:20],n,{}
def run(it): return dict(palettes=palettes,values=values,shapes=shapes,capi=capi_)[it[0]](it[1])
def main(c,b):
    th=vf.TIER=='thorough'
    FS=[(3,3,3),(7,5,15),(-21,36,10)] if th else [(3,-3,34)]
    items=[('values',(t,i,[f],th)) for t in TYPES for i in range(len(alphabet(t))) for f in FS]+[('palettes',range(k,k+5)) for k in range(-40,41,5)]+[('shapes',t) for t in TYPES]+[('capi',t) for t in TYPES]
    items.append(('palettes',[37,-37,100,-1000,2**31-1,-2**31]))
    tot=0; known={}
    for it,r in zip(items,vf.pmap(run,items,chunk=1)):
        if r[0]!='ok': c.violation('crash','%s: %s'%(str(it)[:100],str(r[1])[-400:]),dict(item=str(it))); continue
        bad,n,k=r[1]; tot+=n
        for a,w in k.items(): known.setdefault(a,w)
        for x in bad: c.violation(it[0],x,dict(item=str(it),what=x))
    text={'limit-not-representable':'limits that the number type of the array cannot represent are converted to it before use: ','shape-not-2d':'0- and 1-dimensional arrays produce extra leading dimensions: ','nd-auto-limits':'automatic limits of arrays with more than 2 dimensions are computed separately for each 2-dimensional slice: '}
    for k,w in known.items(): c.violation(k,text[k]+w,dict(what=w))
    c.sample(dict(types=list(TYPES),alphabet_int16=alphabet('int16').tolist(),functions=FS))
    return dict(evaluations=tot,distinct_nontrivial=tot,exhaustive=True,rule='evaluation: one array color-coded with one set of limits and functions, each output value compared')
if __name__=='__main__': vf.main(main,'P18','exploration')
