#!/usr/bin/env python3
"""P11: pose functions for all combinations of memory layouts of their inputs and outputs, and in place.

Python: for each function every combination of layouts of the arguments x every combination of layouts
of the outputs (in one-argument-off-nominal-group products, see combos()), x broadcasting patterns.
C: each mrcal_..._full() x every combination of stride choices, and every documented aliasing. Each
output lies in a larger guarded buffer: nothing outside its elements may change; inputs never change."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf,itertools
import numpy as np
G=-77.25
# ---------------------------------------------------------------- layouts
def alloc(shape,nb,lay):
    """a view of the given shape, inside a guarded buffer; nb: number of broadcast dims. Returns base,view"""
    nd=len(shape); order=list(range(nd)); step=[1]*nd; rev=[False]*nd
    if lay=='F': order=order[::-1]
    elif lay=='I': order=order[:nb]+order[nb:][::-1]
    elif lay=='M': order=order[nb:]+order[:nb]
    elif lay=='S': step=[2]*nd
    elif lay=='L': step[-1]=3
    elif lay=='Rb':
        for i in range(nb): rev[i]=True
    elif lay=='Ri': rev[-1]=True
    elif lay!='C': raise KeyError(lay)
    bs=[shape[i]*step[i] for i in order]
    base=np.full(int(np.prod(bs))+4,G)
    v=base[2:-2].reshape(bs).transpose(np.argsort(order))
    v=v[tuple(slice(None,None,-step[i] if rev[i] else step[i]) for i in range(nd))]
    assert v.shape==tuple(shape)
    return base,v
def mk(a,nb,lay):
    if lay=='Bb': # same values in all the batch
        x=a[(0,)*nb]; return None,np.broadcast_to(x,a.shape)
    base,v=alloc(a.shape,nb,lay); v[...]=a; return base,v
def outside_ok(base,v):
    m=np.ones(base.shape,bool)
    lo=(v.__array_interface__['data'][0]-base.__array_interface__['data'][0])//8
    idx=np.full(v.shape,lo)
    for d,(n,s) in enumerate(zip(v.shape,v.strides)): idx=idx+(np.arange(n)*(s//8)).reshape((-1,)+(1,)*(v.ndim-1-d))
    m[idx.ravel()]=False
    return (base[m]==G).all()
INL=('C','F','I','M','S','L','Rb','Ri','Bb'); OUTL=('C','F','I','M','S','L','Rb','Ri')
# ---------------------------------------------------------------- functions
def table():
    import mrcal,poses
    T=[]
    inv1=[{},dict(inverted=True)]; inv2=[dict(inverted0=a,inverted1=b) for a in (False,True) for b in (False,True)]
    def f(name,ins,outs,kws=({},),inplace=()): T.append((name,ins,outs,list(kws),inplace))
    for n,s in (('identity_R',(3,3)),('identity_r',(3,)),('identity_Rt',(4,3)),('identity_rt',(6,))): f(n,(),(s,))
    f('r_from_R',('R',),((3,),)); f('r_from_R',('R',),((3,),(3,3,3)),[dict(get_gradients=True)])
    f('R_from_r',('r',),((3,3),)); f('R_from_r',('r',),((3,3),(3,3,3)),[dict(get_gradients=True)])
    f('invert_R',('R',),((3,3),),inplace=(0,))
    f('rt_from_Rt',('Rt',),((6,),)); f('rt_from_Rt',('Rt',),((6,),(3,3,3)),[dict(get_gradients=True)])
    f('Rt_from_rt',('rt',),((4,3),)); f('Rt_from_rt',('rt',),((4,3),(3,3,3)),[dict(get_gradients=True)])
    f('invert_Rt',('Rt',),((4,3),),inplace=(0,)); f('invert_rt',('rt',),((6,),),inplace=(0,)); f('invert_rt',('rt',),((6,),(6,6)),[dict(get_gradients=True)],inplace=(0,))
    f('compose_Rt',('Rt','Rt'),((4,3),),inv2,inplace=(0,1)); f('compose_r',('r','r'),((3,),),inv2,inplace=(0,1)); f('compose_rt',('rt','rt'),((6,),),inv2,inplace=(0,1))
    f('compose_r',('r','r'),((3,),(3,3),(3,3)),[dict(k,get_gradients=True) for k in inv2],inplace=(0,1))
    f('compose_rt',('rt','rt'),((6,),(6,6),(6,6)),[dict(k,get_gradients=True) for k in inv2],inplace=(0,1))
    f('compose_Rt',('Rt','Rt','Rt'),((4,3),),inplace=(0,1,2)); f('compose_r',('r','r','r'),((3,),),inplace=(0,1,2)); f('compose_rt',('rt','rt','rt'),((6,),),inplace=(0,1,2))
    f('compose_r_tinyr0_gradientr0',('r',),((3,3),)); f('compose_r_tinyr1_gradientr1',('r',),((3,3),))
    f('compose_rt_tinyrt0_gradientrt0',('rt',),((6,6),)); f('compose_rt_tinyrt1_gradientrt1',('rt',),((6,6),))
    for n,p,J in (('rotate_point_r','r',(3,3)),('rotate_point_R','R',(3,3,3)),('transform_point_rt','rt',(3,6)),('transform_point_Rt','Rt',(3,4,3))):
        f(n,(p,'x'),((3,),),inv1,inplace=(1,)); f(n,(p,'x'),((3,),J,(3,3)),[dict(k,get_gradients=True) for k in inv1],inplace=(1,))
    f('qt_from_Rt',('Rt',),((7,),)); f('Rt_from_qt',('qt',),((4,3),)); f('R_from_quat',('q',),((3,3),)); f('skew_symmetric',('x',),((3,3),)); f('quat_from_R',('R',),((4,),))
    return T
def data():
    import poses
    rng=np.array([[.1,.3,-.5],[0,0,0],[1.,-2,.3],[2e-9,1e-9,-1e-9],[-.3,2.9,.2],[np.pi,0,0]])
    t=np.array([[1,2,3],[0,0,0],[-7.,.5,20],[3,0,1e-3],[1,1,-1],[10,-20,30.]])
    R=poses.R(rng).astype(float); R[1]=np.eye(3)
    import mrcal
    q=np.array([[1,0,0,0],[.5,.5,-.5,.5],[.8,0,.6,0],[0,0,1,0],[.6,-.8,0,0],[.1,.7,.1,.7]])
    d=dict(r=rng,R=R,rt=np.concatenate((rng,t),-1),Rt=np.concatenate((R,t[:,None,:]),-2),x=t[::-1]*1.3+.25,q=q,qt=np.concatenate((q,t),-1))
    return d
def combos(nin,nout,th):
    """all combinations over the inputs with nominal outputs; all over the outputs with nominal inputs; and each
    pair of (uniform input layout, uniform output layout). thorough: the full product"""
    I=list(itertools.product(INL,repeat=nin)); O=list(itertools.product(OUTL,repeat=nout))
    if th and len(I)*len(O)<60000: return [(i,o) for i in I for o in O]
    s={(i,('C',)*nout) for i in I}|{(i,None) for i in I}|{(('C',)*nin,o) for o in O}|{((a,)*nin,(b,)*nout) for a in INL for b in OUTL}
    return sorted(s,key=str)
PAT={0:[()],1:[('23',)],2:[('23','23'),('23','3'),('3','23'),('21','13'),('','23'),('23',''),('','')],3:[('23','23','23'),('3','21','')]}
def bshape(p): return tuple(int(c) for c in p)
def pybatch(k):
    import mrcal
    name,ins,outs,kws,inpl=table()[k[0]]; th=k[1]
    f=getattr(mrcal,name); d=data(); bad=[]; n=0; refused=0
    def close(a,b): return a.shape==b.shape and np.allclose(a,b,rtol=1e-13,atol=1e-13)
    for kw in kws:
        for ip,pat in enumerate(PAT[len(ins)]+([('3',)] if len(ins)==1 else [])):
            bs=[bshape(p) for p in pat]
            B=np.broadcast_shapes(*bs) if bs else (2,3)
            nb=len(B)
            vals=[]
            for j,(a,s) in enumerate(zip(ins,bs)):
                src=d[a]; m=int(np.prod(s)) if s else 1
                vals.append(src[(np.arange(m)+2*j)%len(src)].reshape(s+src.shape[1:]))
            def ref(vs): # one slice at a time, contiguous
                o=[np.zeros(B+s) for s in outs]
                vb=[np.broadcast_to(v,B+d[a].shape[1:]) for v,a in zip(vs,ins)]
                for ix in itertools.product(*[range(x) for x in B]):
                    r=f(*[np.array(v[ix],order='C') for v in vb],**kw)
                    if len(outs)==1: r=(r,)
                    for x,y in zip(o,r): x[ix]=y
                return o
            if not ins: r=f(**kw); wants={None:[np.broadcast_to(r,B+outs[0])]}
            wantc={}
            for il,ol in combos(len(ins),len(outs),th and ip==0):
                if ip>0 and not th and len(set(il))>1: continue # mixed layouts: only with the full broadcast pattern
                vb=[mk(v,len(s),l) for v,s,l in zip(vals,bs,il)]
                vs=[x[1] for x in vb]; before=[v.copy() for v in vs]
                key=tuple(l=='Bb' for l in il)
                if not ins: want=wants[None]
                else:
                    if key not in wantc: wantc[key]=ref([np.array(v) for v in vs])
                    want=wantc[key]
                ob=None
                if ol is not None: ob=[alloc(B+s,nb,l) for s,l in zip(outs,ol)]
                elif not ins: continue
                okw=dict(kw)
                if ob: okw['out']=ob[0][1] if len(ob)==1 else tuple(x[1] for x in ob)
                refusable=any(l=='Ri' for l in il+(ol or ()))
                n+=1; what='%s %s layouts in=%s out=%s batch=%s'%(name,kw,il,ol,pat)
                try: r=f(*vs,**okw)
                except Exception as e:
                    if not refusable and not (name in ('quat_from_R','qt_from_Rt') and ob): bad.append(('refused',what,repr(e)[:200]))
                    refused+=1; r=None
                for x,y in zip(vs,before):
                    if not np.array_equal(x,y): bad.append(('input changed',what))
                for x in ob or ():
                    if not outside_ok(*x): bad.append(('wrote outside the output',what))
                if r is not None:
                    if len(outs)==1: r=(r,)
                    if ob and not all(np.shares_memory(x[1],y) for x,y in zip(ob,r)): bad.append(('out not returned',what))
                    for i,(x,w) in enumerate(zip([x[1] for x in ob] if ob else r,want)):
                        if not close(np.asarray(x),w): bad.append(('value',what,i,str(np.asarray(x)[:2])[:200],str(w[:2])[:200]))
                if len(bad)>6: return bad,n,refused
        # in place: output 0 is the same array as one of the inputs
        for j in inpl:
            for shp in ((2,3),(3,),()):
                for lay in ('C','F','I','M','S','L','Rb','Ri'):
                    if lay in ('Rb',) and not shp: continue
                    for others in ('C','S','same'):
                        vals=[d[a][(np.arange(int(np.prod(shp)))+2*jj)%6].reshape(shp+d[a].shape[1:]) for jj,a in enumerate(ins)]
                        if others=='same':
                            if len(set(ins))>1: continue
                            vals=[vals[j]]*len(ins)
                        want=[np.zeros(shp+s) for s in outs]
                        for ix in itertools.product(*[range(x) for x in shp]):
                            r=f(*[np.array(v[ix],order='C') for v in vals],**kw); r=r if len(outs)>1 else (r,)
                            for x,y in zip(want,r): x[ix]=y
                        vb=[mk(v,len(shp),lay if jj==j else (others if others!='same' else 'C')) for jj,v in enumerate(vals)]
                        vs=[x[1] for x in vb]
                        if others=='same': vs=[vs[j]]*len(ins)
                        ob=[vb[j]]+[alloc(shp+s,len(shp),'C') for s in outs[1:]]
                        n+=1; what='%s %s in place on argument %d layout %s others %s batch %s'%(name,kw,j,lay,others,shp)
                        keep=[v.copy() for v in vs]
                        try: f(*vs,out=ob[0][1] if len(ob)==1 else tuple(x[1] for x in ob),**kw)
                        except Exception as e:
                            refused+=1
                            if lay!='Ri': bad.append(('refused',what,repr(e)[:200]))
                            continue
                        for i,(x,w) in enumerate(zip(ob,want)):
                            if not close(x[1],w): bad.append(('in place',what,i,str(x[1])[:200],str(w)[:200]))
                            if not outside_ok(*x): bad.append(('wrote outside the output',what))
                        for jj,(v,w) in enumerate(zip(vs,keep)):
                            if jj!=j and others!='same' and not np.array_equal(v,w): bad.append(('input changed',what))
                        if len(bad)>6: return bad,n,refused
    return bad,n,refused
# ---------------------------------------------------------------- C
def ctable():
    inv=[(False,),(True,)]; inv2=list(itertools.product((False,True),repeat=2))
    # name, outputs (shape), inputs (kind), flags, in-place: which inputs output 0 may be
    return [
     ('identity_R',((3,3),),(),[()],()),('identity_r',((3,),),(),[()],()),('identity_Rt',((4,3),),(),[()],()),('identity_rt',((6,),),(),[()],()),
     ('rotate_point_R',((3,),(3,3,3),(3,3)),('R','x'),inv,(1,)),('rotate_point_r',((3,),(3,3),(3,3)),('r','x'),inv,(1,)),
     ('transform_point_Rt',((3,),(3,4,3),(3,3)),('Rt','x'),inv,(1,)),('transform_point_rt',((3,),(3,6),(3,3)),('rt','x'),inv,(1,)),
     ('r_from_R',((3,),(3,3,3)),('R',),[()],()),('R_from_r',((3,3),(3,3,3)),('r',),[()],()),
     ('invert_R',((3,3),),('R',),[()],(0,)),('rt_from_Rt',((6,),(3,3,3)),('Rt',),[()],()),('Rt_from_rt',((4,3),(3,3,3)),('rt',),[()],()),
     ('invert_Rt',((4,3),),('Rt',),[()],(0,)),('invert_rt',((6,),(3,3),(3,3)),('rt',),[()],(0,)),
     ('compose_Rt',((4,3),),('Rt','Rt'),inv2,(0,1)),('compose_r',((3,),(3,3),(3,3)),('r','r'),inv2,(0,1)),
     ('compose_rt',((6,),)+((3,3),)*6,('rt','rt'),inv2,(0,1)),
     ('compose_r_tinyr0_gradientr0',((3,3),),('r',),[()],()),('compose_r_tinyr1_gradientr1',((3,3),),('r',),[()],()),
    ]
CL=('0','C','I','S','L','P') # 0: strides given as 0; C: explicit contiguous; I: item dims transposed; P: negative: "contiguous"
def cmk(shape,lay,val=None):
    base,v=alloc(shape,0,lay if lay in 'ISL' else 'C')
    if val is not None: v[...]=val
    st=[0]*len(shape) if lay=='0' else [-1]*len(shape) if lay=='P' else list(v.strides)
    return base,v,st
def cbatch(k):
    import capi,ctypes as C
    name,outs,ins,flags,inpl=ctable()[k[0]]; th=k[1]
    f=getattr(capi.lib(),'mrcal_%s_full'%name); d=data(); bad=[]; n=0
    def call(o,i,fl):
        args=[]
        for x in o+i:
            if x is None: raise ValueError
            args+=[C.c_void_p(x[1].__array_interface__['data'][0])]+x[2]
        f(*args,*[C.c_bool(z) for z in fl])
    na=len(outs)+len(ins)
    if na<=(6 if th else 4): lays=list(itertools.product(CL,repeat=na))
    else:
        lays={tuple(b if j==i else a for j in range(na)) for a in CL for b in CL for i in range(na)}
        lays|={tuple(x) for x in itertools.product('0S',repeat=na)}
        lays|={tuple(p if j==i else q if j==i2 else '0' for j in range(na)) for i in range(na) for i2 in range(i) for p in CL for q in CL}
        lays=sorted(lays)
    for iv in range(6):
        for fl in flags:
            vi=[d[a][(iv+2*j)%6] for j,a in enumerate(ins)]
            ref=[cmk(s,'C') for s in outs]; call(ref,[cmk(v.shape,'C',v) for v in vi],fl)
            want=[x[1].copy() for x in ref]
            for lay in (lays if iv in ((0,4) if not th else range(6)) else lays[::7]):
                o=[cmk(s,l) for s,l in zip(outs,lay)]; i=[cmk(v.shape,l,v) for v,l in zip(vi,lay[len(outs):])]
                call(o,i,fl); n+=1; what='mrcal_%s_full flags %s layouts %s'%(name,fl,lay)
                for q,(x,w) in enumerate(zip(o,want)):
                    if not np.allclose(x[1],w,rtol=1e-13,atol=1e-13): bad.append(('C value',what,q,str(x[1]),str(w)))
                    if not outside_ok(x[0],x[1]): bad.append(('C wrote outside the output',what,q))
                for x,w in zip(i,vi):
                    if not np.array_equal(x[1],w) or not outside_ok(x[0],x[1]): bad.append(('C input changed',what))
                if len(bad)>6: return bad,n,0
            for j in inpl:
                for lay in CL:
                    for same in ((False,True) if len(set(ins))<len(ins) else (False,)):
                        for lo in CL:
                            v=[vi[j]]*len(vi) if same else vi
                            r=[cmk(s,'C') for s in outs]; call(r,[cmk(x.shape,'C',x) for x in v],fl)
                            i=[cmk(x.shape,lay if q==j else lo,x) for q,x in enumerate(v)]
                            if same: i=[i[j]]*len(i)
                            o=[i[j]]+[cmk(s,lo) for s in outs[1:]]
                            call(o,i,fl); n+=1; what='mrcal_%s_full flags %s in place on %d layout %s others %s same %s'%(name,fl,j,lay,lo,same)
                            for q,(x,w) in enumerate(zip(o,r)):
                                if not np.allclose(x[1],w[1],rtol=1e-13,atol=1e-13): bad.append(('C in place',what,q,str(x[1]),str(w[1])))
                                if not outside_ok(x[0],x[1]): bad.append(('C wrote outside the output',what,q))
                            for q,(x,w) in enumerate(zip(i,v)):
                                if q!=j and not same and not np.array_equal(x[1],w): bad.append(('C input changed',what))
                            if len(bad)>6: return bad,n,0
    return bad,n,0
def main(c,bdir):
    import mrcal
    th=vf.TIER=='thorough'
    items=[('py',(k,th)) for k in range(len(table()))]+[('c',(k,th)) for k in range(len(ctable()))]
    def run(it): return dict(py=pybatch,c=cbatch)[it[0]](it[1])
    items.sort(key=lambda x:-((len(table()[x[1][0]][2])+2*len(table()[x[1][0]][1])) if x[0]=='py' else 2*len(ctable()[x[1][0]][1])))
    n=ref=0; per={}
    for it,r in zip(items,vf.pmap(run,items,chunk=1)):
        nm=it[0]+':'+(table() if it[0]=='py' else ctable())[it[1][0]][0]
        if r[0]=='ok':
            bad,k,q=r[1]; n+=k; ref+=q; per[nm]=per.get(nm,0)+k
            for b in bad: c.violation(b[0]+':'+nm,'%s'%(b,),dict(item=it,detail=[str(x) for x in b]))
        else: c.violation('case:'+r[0]+':'+nm,'%s: %s'%(nm,r[1]),dict(item=it))
    c.sample(dict(per_function=per))
    return dict(evaluations=n,distinct_nontrivial=n-ref,refused_reversed_inside_item=ref,exhaustive=True,rule='evaluation: one call with one combination of memory layouts of all its arguments; refused calls (reversed inside an item) are not counted as nontrivial')
if __name__=='__main__': vf.main(main,'P11','exploration')
