#!/usr/bin/env python3
"""P27: valid-intrinsics regions contain exactly what their contour encloses.

Enumerated: (inside) every simple polygon of up to N vertices on a small grid, as a region of a model, open or closed, both
directions, at several scales, set in each way a region can be set x every pixel of a finer grid x ways of batching the
pixels; (difference) every pair of such polygons, shifted and scaled so they overlap, touch, nest (holes) or are disjoint;
(close) every polyline. Oracle: crossing-number containment and shoelace areas in rational arithmetic."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf,itertools,functools
from fractions import Fraction as F
import numpy as np
THOROUGH=os.environ.get('VERIF_TIER')=='thorough'

def orient(a,b,c): return (b[0]-a[0])*(c[1]-a[1])-(b[1]-a[1])*(c[0]-a[0])
def on(a,b,p): return orient(a,b,p)==0 and min(a[0],b[0])<=p[0]<=max(a[0],b[0]) and min(a[1],b[1])<=p[1]<=max(a[1],b[1])
def meet(a,b,c,d):
    s=[(x>0)-(x<0) for x in (orient(a,b,c),orient(a,b,d),orient(c,d,a),orient(c,d,b))]
    return (s[0]*s[1]<0 and s[2]*s[3]<0) or on(a,b,c) or on(a,b,d) or on(c,d,a) or on(c,d,b)
def simple(p):
    n=len(p)
    for i in range(n):
        if orient(p[i-1],p[i],p[(i+1)%n])==0 and on(p[i-1],p[i],p[(i+1)%n]): return False       # spike
        if orient(p[i-1],p[i],p[(i+1)%n])==0 and on(p[i],p[(i+1)%n],p[i-1]): return False
    for i in range(n):
        for j in range(i+1,n):
            if j==i+1 or (i==0 and j==n-1): continue
            if meet(p[i],p[(i+1)%n],p[j],p[(j+1)%n]): return False
    return n>=3 and area2(p)!=0
def area2(p): return sum(p[i-1][0]*p[i][1]-p[i][0]*p[i-1][1] for i in range(len(p)))
@functools.lru_cache(None)
def polygons(nx,ny,n):
    """all simple polygons with n vertices on the grid, each once (as a cycle, counterclockwise)"""
    P=[(x,y) for y in range(ny) for x in range(nx)]; out=[]
    for c in itertools.permutations(P,n):
        if c[0]!=min(c): continue
        if area2(c)>0 and simple(c): out.append(c)
    return out
def inside(poly,px,py):
    """crossing number of the points, none of which may be on the boundary. Exact: the inputs are small dyadic numbers"""
    r=np.zeros(np.shape(px),bool); n=len(poly)
    for i in range(n):
        (x0,y0),(x1,y1)=poly[i-1],poly[i]
        if y0==y1: continue
        c=((y0>py)!=(y1>py)); d=(px-x0)*(y1-y0)-(x1-x0)*(py-y0)
        r^=c&((d<0)==(y1>y0))&(d!=0)
    return r
def boundary(poly,px,py):
    r=np.zeros(np.shape(px),bool)
    for i in range(len(poly)):
        (x0,y0),(x1,y1)=poly[i-1],poly[i]
        r|=((px-x0)*(y1-y0)==(x1-x0)*(py-y0))&(np.minimum(x0,x1)<=px)&(px<=np.maximum(x0,x1))&(np.minimum(y0,y1)<=py)&(py<=np.maximum(y0,y1))
    return r
# ------------------------------------------------------------------ containment
def model(W=640,H=480):
    import mrcal
    return mrcal.cameramodel(intrinsics=('LENSMODEL_PINHOLE',np.array([500.,500,319.5,239.5])),imagersize=(W,H))
def contains(it):
    import mrcal,tempfile
    polys,step,scale,off=it; ev=nd=0; out=[]
    for k,p0 in enumerate(polys):
        p=np.array(p0,float)*scale+off; mx=max(max(v) for v in p0)
        gx,gy=np.meshgrid((np.arange(-1,mx+2,step))*scale+off[0],(np.arange(-1,mx+2,step))*scale+off[1]); q=np.stack((gx,gy),-1)
        want=inside(p,gx,gy); bd=boundary(p,gx,gy)
        for form in ('closed','open','reversed','constructor','file','copy') if k%5==0 else ('closed','open'):
            ev+=1; r=p[::-1] if form=='reversed' else p; r=r if form=='open' and len(r)>=4 else np.vstack((r,r[:1])); r0=r.copy()
            cfg=dict(polygon=p0,scale=scale,offset=list(off),form=form)
            try:
                if form=='constructor': m=mrcal.cameramodel(intrinsics=('LENSMODEL_PINHOLE',np.array([500.,500,319.5,239.5])),imagersize=(640,480),valid_intrinsics_region=r)
                else:
                    m=model()
                    try: m.valid_intrinsics_region(r)
                    except Exception:
                        if form=='open': continue           # must be closed
                        raise
                if form=='copy': m=mrcal.cameramodel(m)
                if form=='file':
                    with tempfile.TemporaryDirectory(prefix='vf-p27-') as d: m.write(d+'/a.cameramodel'); m=mrcal.cameramodel(d+'/a.cameramodel')
                got=mrcal.is_within_valid_intrinsics_region(q,m)
            except Exception as e: out.append((cfg,'raised %s'%str(e)[:80])); continue
            nd+=1
            if np.shape(got)!=want.shape or not (np.asarray(got)==want)[~bd].all(): out.append((cfg,'wrong mask'))
            if not np.array_equal(r,r0): out.append((cfg,'the region array was modified'))
        if k%10==0:
            m=model(); m.valid_intrinsics_region(np.vstack((p,p[:1])))
            n=q.size//2; f=q.reshape(n,2); wf=want.ravel(); ok=~bd.ravel()
            for name,qq,w,k2 in [('flat',f,wf,ok),('transposed',q.swapaxes(0,1),want.T,~bd.T),('reversed',q[::-1,::-1],want[::-1,::-1],~bd[::-1,::-1]),('4d',q[None,:,None],want[None,:,None],~bd[None,:,None]),
                              ('empty',np.zeros((0,2)),np.zeros(0,bool),np.zeros(0,bool)),('empty 3d',np.zeros((2,0,2)),np.zeros((2,0),bool),np.zeros((2,0),bool)),('fortran',np.asfortranarray(q),want,~bd),('sliced',np.repeat(q,2,-1)[...,::2][::1],want,~bd)]+\
                             [('single',f[i],wf[i],ok[i]) for i in range(0,n,7)]:
                ev+=1; got=mrcal.is_within_valid_intrinsics_region(qq,m)
                if np.shape(got)!=np.shape(w) or not (np.asarray(got)==w)[k2].all(): out.append((dict(polygon=p0,batch=name),'wrong mask for this arrangement of pixels'))
    return ev,nd,out
def special(_):
    import mrcal
    out=[]; m=model(); q=np.array([[0.,0],[320,240],[np.nan,1]]); ev=0
    if mrcal.is_within_valid_intrinsics_region(q,m) is not None: out.append((dict(),'no region: not None'))
    m.valid_intrinsics_region(np.zeros((0,2)))
    r=mrcal.is_within_valid_intrinsics_region(q,m)
    if r is None or r.shape!=(3,) or r.any(): out.append((dict(),'the empty region contains something'))
    m.valid_intrinsics_region(np.array([(-5,-5),(700,-5),(700,700),(-5,700),(-5,-5.)]))
    r=mrcal.is_within_valid_intrinsics_region(q,m)
    if r.tolist()!=[True,True,False]: out.append((dict(),'wrong mask'))
    m.valid_intrinsics_region_reset()
    if mrcal.is_within_valid_intrinsics_region(q,m) is not None: out.append((dict(),'region reset: not None'))
    if mrcal.close_contour(None) is not None: out.append((dict(),'close_contour(None)'))
    for s in ((0,),(0,2),(2,0),(0,0)):
        if mrcal.close_contour(np.zeros(s)).shape!=(0,2): out.append((dict(shape=s),'close_contour() of an empty contour'))
    return 8,8,out
def closing(_):
    import mrcal
    out=[]; ev=0; P=[(x,y) for x in range(3) for y in range(2)]
    for n in (1,2,3,4,5):
        for t in itertools.product(P,repeat=n):
            for dt in (float,int):
                c=np.array(t,dt); c0=c.copy(); ev+=1; r=mrcal.close_contour(c)
                want=c if t[0]==t[-1] else np.vstack((c,c[:1]))
                if r.shape!=want.shape or not np.array_equal(r,want): out.append((dict(contour=t),'close_contour()'))
                elif not np.array_equal(mrcal.close_contour(r),r): out.append((dict(contour=t),'closing twice changes the contour'))
                if not np.array_equal(c,c0): out.append((dict(contour=t),'the argument was modified'))
    return ev,ev,out
# ------------------------------------------------------------------ differences
def difference(it):
    import mrcal,warnings
    A,Bs,sa,sb,off,closed=it; ev=nd=0; out=[]
    g=np.arange(-1,14,.5)+.0078125; gx,gy=np.meshgrid(g,g+.00390625)
    a=[(x*sa,y*sa) for x,y in A]; ia=inside(a,gx,gy)
    for B in Bs:
        b=[(x*sb+off[0],y*sb+off[1]) for x,y in B]; ev+=1; ib=inside(b,gx,gy); want=ia&~ib
        cfg=dict(positive=a,negative=b,closed=closed)
        pa,pb=(np.array(list(x)+([x[0]] if closed else []),float) for x in (a,b)); a0,b0=pa.copy(),pb.copy()
        try: r=mrcal.polygon_difference(pa,pb)
        except Exception as e: out.append((cfg,'raised %s'%str(e)[:80])); continue
        nd+=1; n=np.zeros(gx.shape,int); area=F(0)
        for p in r:
            p=np.asarray(p)
            if p.ndim!=2 or p.shape[1]!=2: out.append((cfg,'shape')); break
            n+=inside(p[:-1] if np.array_equal(p[0],p[-1]) else p,gx,gy)
        # points that sit on a cut between two pieces are within roundoff of it
        if (n>1).any(): out.append((cfg,'the pieces overlap'))
        d=(n>0)!=want
        if d.any():
            far=d.copy()
            for p in r: far&=~near(np.asarray(p),gx,gy)
            if far.any() or d.sum()>4: out.append((cfg,'the pieces do not cover the difference'))
        if not (np.array_equal(pa,a0) and np.array_equal(pb,b0)): out.append((cfg,'an argument was modified'))
    return ev,nd,out
def near(p,gx,gy,eps=1e-6):
    r=np.zeros(gx.shape,bool)
    for (x0,y0),(x1,y1) in zip(p[:-1],p[1:]):
        l=np.hypot(x1-x0,y1-y0)
        if l==0: continue
        t=((gx-x0)*(x1-x0)+(gy-y0)*(y1-y0))/l/l
        r|=(np.abs((gx-x0)*(y1-y0)-(gy-y0)*(x1-x0))/l<eps)&(t>-.01)&(t<1.01)
    return r
FN=dict(contains=contains,special=special,closing=closing,difference=difference)
def go(it): return FN[it[0]](it[1])
def main(c,b):
    items=[('special',0),('closing',0)]
    P3,P4,P5=polygons(3,3,3),polygons(3,3,4),polygons(3,3,5); P6=polygons(3,3,6)
    Q4=polygons(4,4,4) if THOROUGH else polygons(4,3,4); Q3=polygons(4,4,3)
    def ch(l,n): return [l[i:i+n] for i in range(0,len(l),n)]
    every=P3+P4+P5+P6+Q3+Q4
    for s,o in [(100.,(50.,40.)),(7.25,(300.5,-3.)),(1000.,(-900.,-500.))]:
        for x in ch(every if s==100. or THOROUGH else every[::4],25): items.append(('contains',(x,.5 if s!=7.25 else .25,s,np.array(o))))
    cat=P3[::6]+P4[::6]+P5[::25]+P6[::60]; base=P3+P4+P5[::6]+P6[::12]
    if THOROUGH: cat,base=P3[::2]+P4[::2]+P5[::8]+P6[::16],P3+P4+P5+P6[::4]
    for A in base:
        for sa,sb,off in [(4,4,(0,0)),(6,1,(5,5)),(6,2,(2,3)),(2,6,(0,0)),(4,4,(3,-1)),(3,3,(20,0)),(6,.5,(6.25,3.5)),(4,2,(4,4))]: items.append(('difference',(A,cat,sa,sb,off,True)))
        items.append(('difference',(A,cat,4,2,(1,2),False)))
    ev=nd=0
    for it,r in zip(items,vf.pmap(go,items)):
        if r[0]!='ok': c.violation('%s:crash'%it[0],'%s %s: %s'%(it[0],str(it[1])[:200],str(r[1])[-300:]),dict(item=str(it)[:500],crash=str(r[1])[-600:])); continue
        n,d,out=r[1]; ev+=n; nd+=d; c.count(it[0],n)
        for cfg,what in out: c.violation('%s:%s'%(it[0],what),'%s: %s'%(what,cfg),dict(kind=it[0],what=what,config=str(cfg)))
    c.sample(dict(polygons={'3x3 grid':[len(x) for x in (P3,P4,P5,P6)],'larger grid':[len(Q3),len(Q4)]}))
    c.sample(dict(difference_pairs=len(base)*len(cat)*9))
    return dict(evaluations=ev,distinct_nontrivial=nd,exhaustive=True,
      rule='every simple polygon of 3..6 vertices on a 3x3 grid (3, 4 on a larger one) as a region x every pixel of a grid twice as fine; pairs of polygons x 9 relative placements x every point of a grid; every polyline of up to 5 points. Nontrivial: a result was compared')
if __name__=='__main__': vf.main(main,'P27','exploration')
