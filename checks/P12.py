#!/usr/bin/env python3
"""P12: .cameramodel round trips: all lens models x parameter alphabets x optional items x notes x ways to
write and read; optimization inputs of every problem kind; every truncation; every single malformation."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf,itertools,io,warnings
import numpy as np
VALS=[0.,-0.,1/3.,1e-300,-2.5e-320,1.7e308,123456789.123456789,-1e-9,99999999995.,.9999999999999,-7e22,1e16+2]
EXT=[np.zeros(6),np.array([.1,-.2,.3,1,2,3]),np.array([1e-12,np.pi,-2.,1e8,-1e-8,1/3.]),np.array([-7.,1e-300,0,123456.789012345,-0.,1e10])]
SIZES=[(1,1),(640,480),(2**31-1,3),(1000.,7.)]
sq=np.array([(10.,20),(30,20),(30,40.123456789012),(10,40)])
REGIONS=[None,np.zeros((0,2)),np.r_[sq,sq[:1]],sq,np.array([(0,0),(1e9,.1),(1/3.,-5),(0,0)])*1.,np.c_[np.cos(np.arange(40)),np.sin(np.arange(40))]*1e3]
NOTES=[None,'','hello','two\nlines','crlf\r\n{',"'''quote\"",'}','# nested','{ \'lensmodel\': 3 }','back\\','-*- coding: utf-16 -*-','\u00e9\u4e2d','a\x0bb\x0cc\x1cd\x1ee\x85f\u2028g\u2029}','\n\n','tab\t','nul\0}','\\\n{','"""\n}','\r}','lensmodel: X']
def near(a,b,rel=6e-10):
    a=np.asarray(a,float); b=np.asarray(b,float)
    if a.shape!=b.shape: return False
    return bool(np.all(np.abs(a-b)<=rel*np.abs(b)+1e-323*20))
def intr(name,k,n): return np.array([VALS[(k+3*i)%len(VALS)] for i in range(n)])
def region_ref(r):
    if r is None: return None
    if len(r)==0: return np.zeros((0,2))
    return r if np.all(r[0]==r[-1]) else np.r_[r,r[:1]]
def compare(m,want):
    """m: a model that was read. want: name,intrinsics,rt,size,region"""
    import mrcal
    name,k,rt,size,region=want; bad=[]
    n,i=m.intrinsics()
    if n!=name: bad.append(('lensmodel',n,name))
    if not near(i,k): bad.append(('intrinsics',i.tolist(),k.tolist()))
    if not near(m.rt_cam_ref(),rt): bad.append(('extrinsics',m.rt_cam_ref().tolist(),rt.tolist()))
    if tuple(m.imagersize())!=tuple(int(x) for x in size): bad.append(('imagersize',m.imagersize(),size))
    r=m.valid_intrinsics_region(); w=region_ref(region)
    if (r is None)!=(w is None) or (r is not None and not near(r,w)): bad.append(('region',str(r),str(w)))
    return bad
def make(w):
    import mrcal
    return mrcal.cameramodel(intrinsics=w[:2],imagersize=w[3],rt_cam_ref=w[2],valid_intrinsics_region=w[4])
def writer(m,note,mode,d):
    """writes and reads back. mode: pair of ways"""
    import mrcal
    fn=os.path.join(d,'m.cameramodel')
    kw={} if note is None else dict(note=note)
    if mode[0]=='name': m.write(fn,**kw)
    elif mode[0]=='file':
        with open(fn,'w') as f: m.write(f,**kw)
    elif mode[0]=='str':
        with open(fn,'w') as f: f.write(str(m))
    else:
        s=io.StringIO(); m.write(s,**kw)
        with open(fn,'w',newline='') as f: f.write(s.getvalue())
    if mode[1]=='name': r=mrcal.cameramodel(fn)
    elif mode[1]=='file':
        with open(fn) as f: r=mrcal.cameramodel(f)
    elif mode[1]=='stdin':
        o=sys.stdin; sys.stdin=open(fn)
        try: r=mrcal.cameramodel('-')
        finally: sys.stdin.close(); sys.stdin=o
    else: r=mrcal.cameramodel(io.StringIO(open(fn,newline='').read()))
    return r,open(fn,'rb').read()
def trips(item):
    import mrcal,tempfile,probs
    name,th=item; bad=[]; n=0
    n_=mrcal.lensmodel_num_params(name)
    ks=[intr(name,k,n_) for k in range(len(VALS))]
    with tempfile.TemporaryDirectory() as d, warnings.catch_warnings():
        warnings.simplefilter('error')
        def one(w,note,mode,what):
            m=make(w)
            r,text=writer(m,note,mode,d)
            b=compare(r,w)
            if b: bad.append(('round trip',what,b)); return
            # and it is a fixed point
            r2,t2=writer(r,note,mode,d)
            if t2.replace(b' -0,',b' 0,')!=text.replace(b' -0,',b' 0,'): bad.append(('writing what was read differs',what))
            if note is None or note=='': return
        for (ik,k),(ie,e),s,(ir,r) in itertools.product(enumerate(ks),enumerate(EXT),SIZES,enumerate(REGIONS)):
            if not th and (ik+ie+ir)%3: continue
            one((name,k,e,s,r),None,('io','io'),(name,ik,ie,s,ir)); n+=1
            if len(bad)>5: return bad,n
        for note,a,b,ir in itertools.product(NOTES,('name','file','io','str'),('name','file','io','stdin'),(0,1,2)):
            if a=='str' and note: continue
            one((name,ks[2],EXT[1],SIZES[1],REGIONS[ir]),note,(a,b),(name,'note',repr(note),a,b,ir)); n+=1
            if len(bad)>5: return bad,n
    return bad,n
def oi_equal(a,b):
    """b: read back. Returns a list of differences"""
    bad=[]
    for k,v in a.items():
        if k.startswith('verbose'): continue
        w=b.get(k)
        if v is None or (isinstance(v,bool) and not v and w is None) or (isinstance(v,np.ndarray) and v.size==0 and (w is None or w.size==0)):
            if w is not None and not (hasattr(w,'size') and w.size==0) and w is not False: bad.append((k,v,w))
            continue
        if isinstance(v,np.ndarray):
            if not isinstance(w,np.ndarray) or v.shape!=w.shape or not np.array_equal(v,w): bad.append((k,'array differs'))
            elif not w.dtype.isnative or w.dtype!=v.dtype.newbyteorder('='): bad.append((k,'dtype',w.dtype))
        elif type(v)!=type(w) or v!=w: bad.append((k,v,w))
    for k in b:
        if k not in a and k not in ('verbose','rt_cam_ref','frames_rt_toref','extrinsics_rt_fromref'): bad.append((k,'appeared'))
    return bad
PR=[dict(),dict(model='LENSMODEL_OPENCV8',sens=((0,-1),(1,0),(2,1)),Np=3,Npf=1),dict(sens=((0,0),(1,1)),sel=dict(warp=0,reg=0)),dict(boards=[],Nf=0,Np=4,warp=False),
    dict(tri=[[0,1],[0,1]],Nf=1,sel=dict(core=0,dist=0,reg=0)),dict(sens=((0,-1),),warp=False,sel=dict(warp=0)),dict(model='LENSMODEL_CAHVOR',sel=dict(core=0,unity=1),Nf=2),dict(model=None)]
def optin(k):
    import mrcal,tempfile,probs
    s=dict(PR[k])
    if 'model' in s and s['model'] is None: s['model']=probs.SPL3
    p=probs.Prob(**s); bad=[]; n=0
    with tempfile.TemporaryDirectory() as d:
        for var in ('plain','bigendian','outliers','observed_pixel_uncertainty','fortran'):
            kw=p.kw()
            if var=='bigendian': kw={a:(v.astype(v.dtype.newbyteorder('>')) if isinstance(v,np.ndarray) else v) for a,v in kw.items()}
            if var=='fortran': kw={a:(np.asfortranarray(v) if isinstance(v,np.ndarray) else v) for a,v in kw.items()}
            if var=='outliers' and 'observations_board' in kw: kw['observations_board'][0,0,0,2]=-1.
            if var=='observed_pixel_uncertainty': kw['do_apply_outlier_rejection']=True
            for ic in range(len(kw['intrinsics'])):
                if not any(c==ic for c,e in p.sens): continue
                ie=[e for c,e in p.sens if c==ic][0]
                kwc=dict(icam_extrinsics=ie) if len(p.itci) or var in ('bigendian','fortran') else {} # inferring it needs boards or points, as the solver does
                for note,a,b,ir in itertools.product((None,'x\n}'),('name','io'),('name','io','stdin'),(0,2)):
                    m=mrcal.cameramodel(optimization_inputs=kw,icam_intrinsics=ic,**kwc)
                    if ir: m.valid_intrinsics_region(REGIONS[ir])
                    n+=1; what=('optimization inputs',k,var,ic,note,a,b,ir)
                    r,text=writer(m,note,(a,b),d)
                    bd=compare(r,(p.model,p.intr[ic],p.ext[ie] if ie>=0 else np.zeros(6),kw['imagersizes'][ic],REGIONS[ir]))
                    if bd: bad.append(('round trip',what,bd))
                    if (r.icam_intrinsics(),r.icam_extrinsics())!=(ic,ie): bad.append(('camera indices',what,r.icam_intrinsics(),r.icam_extrinsics()))
                    o=r.optimization_inputs()
                    bd=oi_equal(kw,o)
                    if bd: bad.append(('optimization inputs',what,bd))
                    if o.get('verbose'): bad.append(('verbose',what))
                    r2,t2=writer(r,note,(a,b),d)
                    if t2.replace(b' -0,',b' 0,')!=text.replace(b' -0,',b' 0,'): bad.append(('writing what was read differs',what))
                if var in ('plain','bigendian') and not bad:
                    x0=mrcal.optimizer_callback(**p.kw())[1]; x1=mrcal.optimizer_callback(**o)[1]
                    if not np.array_equal(x0,x1): bad.append(('solving what was read differs',what))
                # without the optimization inputs
                m.optimization_inputs_reset(); r,text=writer(m,None,('io','io'),d)
                if r.optimization_inputs() is not None or r.icam_intrinsics() is not None or r.icam_extrinsics() is not None: bad.append(('reset optimization inputs',what))
                if len(bad)>5: return bad,n
    return bad,n
def base_texts():
    import mrcal,probs
    o=[]
    for w in (('LENSMODEL_PINHOLE',np.array([600.,601,320,240]),EXT[1],(640,480),None),('LENSMODEL_CAHVORE_linearity=0.37',intr('',1,12),EXT[2],(640,480),REGIONS[2])):
        s=io.StringIO(); make(w).write(s,note='a note'); o.append(s.getvalue())
    p=probs.Prob(W=2,H=2,Nf=1); s=io.StringIO(); mrcal.cameramodel(optimization_inputs=p.kw(),icam_intrinsics=1).write(s); o.append(s.getvalue())
    return o
def readstr(t):
    import mrcal
    return mrcal.cameramodel(io.StringIO(t))
def trunc(item):
    it,lo,hi=item; t=base_texts()[it]; bad=[]; n=0
    full=str(readstr(t))
    for i in range(lo,min(hi,len(t))):
        n+=1
        try: m=readstr(t[:i])
        except Exception: continue
        if t[i:].strip() or str(m)!=full: bad.append(('truncated file accepted',it,i,t[max(0,i-30):i]))
    return bad,n
def malformed(_):
    """every single malformation of a model"""
    import mrcal,ast
    bad=[]; n=0
    t=base_texts()[1]; d0=ast.literal_eval(t); d0.pop('extrinsics',None); full=str(readstr(t))
    t2=base_texts()[2]; d2=ast.literal_eval(t2); d2.pop('extrinsics',None)
    def must_fail(d,what):
        nonlocal n; n+=1
        try: m=readstr(d if isinstance(d,str) else repr(d)+'\n')
        except Exception: return
        bad.append(('invalid model accepted',what))
    def must_read(d,what,want=full):
        nonlocal n; n+=1
        try: m=readstr(repr(d))
        except Exception as e: bad.append(('valid model refused',what,repr(e)[:200])); return
        if str(m)!=want: bad.append(('read differently',what))
    must_read(d0,'plain')
    for k in ('lensmodel','intrinsics','rt_cam_ref','imagersize'):
        d=dict(d0); del d[k]; must_fail(d,('missing',k))
        d['spurious']=3; must_fail(d,('missing, with an unknown key',k))
        d=dict(d0); d['spurious']=3; must_read(d,'an unknown key')
    wrong=[None,3,'x',[],{},[1],['a'],[None]*6,[[1,2],[3,4]],b'x']
    for k in ('lensmodel','intrinsics','rt_cam_ref','imagersize'):
        for v in wrong: d=dict(d0); d[k]=v; must_fail(d,('wrong',k,v))
    for k,n_ in (('intrinsics',12),('rt_cam_ref',6),('imagersize',2)):
        for m in range(0,n_+3):
            if m!=n_: d=dict(d0); d[k]=[1]*m; must_fail(d,('length',k,m))
        for i in range(n_):
            for v in ('x',None,[1],(),{}): d=dict(d0); l=list(d[k]); l[i]=v; d[k]=l; must_fail(d,('element',k,i,v))
    for v in ((0,5),(5,0),(-1,5),(1.5,3),(5,2.5)): d=dict(d0); d['imagersize']=v; must_fail(d,('imagersize',v))
    for v in ('LENSMODEL_','PINHOLE','LENSMODEL_PINHOLE ','LENSMODEL_CAHVORE','LENSMODEL_CAHVORE_linearity=','LENSMODEL_NOPE',''): d=dict(d0); d['lensmodel']=v; must_fail(d,('lensmodel',v))
    for v in ('LENSMODEL_PINHOLE','LENSMODEL_OPENCV4'): d=dict(d0); d['lensmodel']=v; must_fail(d,('lensmodel that has other parameters',v))
    d=dict(d0); d['extrinsics']=d['rt_cam_ref']; must_read(d,'both names of the extrinsics')
    for i in range(6):
        d=dict(d0); d['extrinsics']=[x+(i==j)*max(1e-3,abs(x)) for j,x in enumerate(d['rt_cam_ref'])]; must_fail(d,('conflicting extrinsics',i))
    d['extrinsics']='x'; must_fail(d,'extrinsics')
    # legacy names
    for a,b in (('distortion_model','lensmodel'),('lens_model','lensmodel'),('extrinsics','rt_cam_ref')):
        d=dict(d0); d[a]=d.pop(b); must_read(d,('legacy',a))
    d=dict(d0); d['distortion_model']=d.pop('lensmodel').replace('LENSMODEL','DISTORTION'); must_read(d,'legacy DISTORTION_')
    f2=str(readstr(t2)); d=dict(d2); d['icam_intrinsics_optimization_inputs']=d.pop('icam_intrinsics'); must_read(d,'legacy icam_intrinsics',f2)
    must_read(d2,'with optimization inputs',f2)
    for k in ('icam_intrinsics',): d=dict(d2); del d[k]; must_fail(d,('missing',k))
    for v in ('x',-1,1.5,None,[0]): d=dict(d2); d['icam_intrinsics']=v; must_fail(d,('icam_intrinsics',v))
    for v in ('x',1.5,[0]): d=dict(d2); d['icam_extrinsics']=v; must_fail(d,('icam_extrinsics',v))
    for v in ('x',None,3,[]): d=dict(d2); d['optimization_inputs']=v; must_fail(d,('optimization_inputs',v))
    d=dict(d2); del d['optimization_inputs']; must_fail(d,'icam_intrinsics without optimization_inputs')
    for s in ('','\n','{}','[]','3','None',"'x'",'{','}','hello','{1:2}','[1,2','lensmodel: X\n','a: b\n','{"a":1}','# only a note\n','()','import os','__import__("os")'): must_fail(s,('text',s))
    must_fail(t+t,'two models'); must_fail(t+'x','garbage at the end'); must_fail('x'+t,'garbage at the start')
    # single-character deletions of the structural characters
    for i,ch in enumerate(t):
        if ch in "{}[]'": 
            s=t[:i]+t[i+1:]
            n+=1
            try: m=readstr(s)
            except Exception: continue
            if str(m)!=full: bad.append(('invalid model accepted',('deleted',ch,i,t[max(0,i-30):i+10])))
    return bad[:8],n
def main(c,bdir):
    import mrcal,probs
    th=vf.TIER=='thorough'
    names=['LENSMODEL_PINHOLE','LENSMODEL_STEREOGRAPHIC','LENSMODEL_LONLAT','LENSMODEL_LATLON','LENSMODEL_OPENCV4','LENSMODEL_OPENCV5','LENSMODEL_OPENCV8','LENSMODEL_OPENCV12','LENSMODEL_CAHVOR','LENSMODEL_CAHVORE_linearity=0.37','LENSMODEL_CAHVORE_linearity=-0.5',probs.SPL3,probs.SPL2]
    lens=[len(t) for t in base_texts()]
    items=[('trips',(x,th)) for x in names]+[('optin',k) for k in range(len(PR))]+[('malformed',0)]
    for i,l in enumerate(lens):
        step=250
        items+=[('trunc',(i,a,a+step)) for a in range(0,l,step)]
    def run(it): return dict(trips=trips,optin=optin,trunc=trunc,malformed=malformed)[it[0]](it[1])
    n=0; per={}
    for it,r in zip(items,vf.pmap(run,items,chunk=1)):
        if r[0]=='ok':
            bad,k=r[1]; n+=k; per[it[0]]=per.get(it[0],0)+k
            for b in bad: c.violation(b[0],'%s'%(b,),dict(item=it,detail=[str(x) for x in b]))
        else: c.violation('case:'+r[0]+':'+it[0],'%s: %s'%(it,r[1]),dict(item=it))
    c.sample(per); c.sample(dict(values=VALS)); c.sample(dict(notes=[repr(x) for x in NOTES]))
    return dict(evaluations=n,distinct_nontrivial=n,**{'n_'+k:v for k,v in per.items()},exhaustive=True,rule='evaluation: one model written and read back twice, or one truncated or malformed text read')
if __name__=='__main__': vf.main(main,'P12','exploration')
