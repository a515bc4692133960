#!/usr/bin/env python3
"""P14: all operation sequences up to a depth on camera model objects, against a reference object.

Two objects are live (the second appears when the first is copied). After each operation every getter of
both is compared with the reference state; a rejected write must change nothing; overwriting every array
ever passed in or returned must change nothing."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf,itertools,io,copy,warnings
import numpy as np
PIN=('LENSMODEL_PINHOLE',np.array([600.,601,320,240])); CV4=('LENSMODEL_OPENCV4',np.array([700.,701,330,250,.1,-.2,.003,.004]))
E1=np.array([.1,-.2,.3,1,2,3]); E2=np.array([2.,1.,-.4,-5,.3,20]); E3=np.array([0,0,0,1.,0,0])
OPEN=np.array([(10.,20),(30,20),(30,40),(10,40)]); CLOSED=np.array([(1.,2),(3,2),(3,4),(1,2)])
class State: # reference
    def __init__(s,lens,k,size,Rt,region=None,oi=None,ici=None,ice=None): s.lens,s.k,s.size,s.Rt,s.region,s.oi,s.ici,s.ice=lens,np.array(k,float),tuple(size),Rt,region,oi,ici,ice
    def key(s): return (s.lens,s.k.tobytes(),s.size,np.round(s.Rt.astype(float),6).tobytes(),None if s.region is None else s.region.tobytes(),s.oi,s.ici,s.ice)
    def clone(s): return copy.copy(s)
_OI={}
def oi(name):
    """optimization inputs, by name"""
    import probs
    if name not in _OI:
        if name=='A': p=probs.Prob(W=2,H=2,Nf=1)
        elif name=='B': p=probs.Prob(model='LENSMODEL_OPENCV4',sens=((0,-1),(1,0)),W=2,H=2,Nf=2,vary=1)
        else: p=probs.Prob(sens=((0,0),(0,1),(0,2)),W=2,H=2,Nf=1) # a moving camera
        _OI[name]=p
    return _OI[name].kw()
class World:
    def __init__(s,init):
        import mrcal,poses
        s.held=[]; s.reread=False; s.objs=[]; s.refs=[]; s.i=0
        if init=='discrete':
            k=s.h(PIN[1].copy()); e=s.h(E1.copy()); sz=s.h(np.array((640,480)))
            s.objs=[mrcal.cameramodel(intrinsics=(PIN[0],k),imagersize=sz,rt_cam_ref=e)]; s.refs=[State(PIN[0],PIN[1],(640,480),poses.Rt(E1))]
        elif init=='Rt_ref_cam':
            k=s.h(CV4[1].copy()); e=s.h(poses.Rt(E2).astype(float)); sz=s.h(np.array((641,480))); r=s.h(OPEN.copy())
            s.objs=[mrcal.cameramodel(intrinsics=(CV4[0],k),imagersize=sz,Rt_ref_cam=e,valid_intrinsics_region=r)]
            s.refs=[State(CV4[0],CV4[1],(641,480),poses.inv_Rt(poses.Rt(E2)),np.r_[OPEN,OPEN[:1]])]
        else:
            d=oi('B'); s.hd(d)
            s.objs=[mrcal.cameramodel(optimization_inputs=d,icam_intrinsics=1)]
            s.refs=[State(d['lensmodel'],d['intrinsics'][1],d['imagersizes'][1],poses.Rt(d['rt_cam_ref'][0].copy()),None,'B',1,0)]
    def h(s,a): s.held.append(a); return a
    def hd(s,d):
        for v in d.values():
            if isinstance(v,np.ndarray): s.held.append(v)
        return d
    def check(s):
        import poses,mrcal
        bad=[]
        for o,r,which in zip(s.objs,s.refs,range(9)):
            def eq(what,a,b,tol=0):
                if a is None or b is None:
                    if (a is None)!=(b is None): bad.append((which,what,str(a)[:200],str(b)[:200]))
                    return
                a=np.asarray(a); b=np.asarray(b,float)
                if a.shape!=b.shape or not np.all(np.abs(a-b)<=tol*(1+np.abs(b))): bad.append((which,what,str(a)[:200],str(b)[:200]))
            n,k=o.intrinsics(); s.h(k)
            if n!=r.lens: bad.append((which,'lensmodel',n,r.lens))
            eq('intrinsics',k,r.k); eq('imagersize',s.h(o.imagersize()),r.size)
            tol=3e-8 if s.reread else 1e-9 # a file holds 10 significant digits
            a=s.h(o.Rt_cam_ref()); eq('Rt_cam_ref',a,r.Rt.astype(float),tol)
            b=s.h(o.Rt_ref_cam()); eq('Rt_ref_cam',b,poses.inv_Rt(r.Rt).astype(float),tol)
            c=s.h(o.rt_cam_ref()); eq('rt_cam_ref',poses.Rt(c).astype(float) if c.shape==(6,) else c,r.Rt.astype(float),tol)
            d=s.h(o.rt_ref_cam()); eq('rt_ref_cam',poses.Rt(d).astype(float) if d.shape==(6,) else d,poses.inv_Rt(r.Rt).astype(float),tol)
            for f,w in ((o.extrinsics_rt_fromref,c),(o.extrinsics_rt_toref,d),(o.extrinsics_Rt_fromref,a),(o.extrinsics_Rt_toref,b)): eq(f.__name__,s.h(f()),w,1e-15)
            q=o.valid_intrinsics_region(); eq('valid_intrinsics_region',q,r.region,1e-9)
            if q is not None: s.h(q)
            if (o.icam_intrinsics(),o.icam_extrinsics())!=(r.ici,r.ice): bad.append((which,'icam',o.icam_intrinsics(),o.icam_extrinsics(),r.ici,r.ice))
            x=o.optimization_inputs()
            if (x is None)!=(r.oi is None): bad.append((which,'optimization_inputs presence',x is None,r.oi))
            elif x is not None:
                s.hd(x); w=oi(r.oi)
                for kk,v in w.items():
                    if isinstance(v,np.ndarray) and v.size and not np.array_equal(v,x.get(kk)): bad.append((which,'optimization_inputs',kk))
                    elif isinstance(v,(str,float,int)) and v and x.get(kk)!=v: bad.append((which,'optimization_inputs',kk))
        return bad
def ops():
    """name -> (function(world), valid?). A function changes world.objs[i] and the reference"""
    import mrcal,poses
    O={}
    def op(name,valid=True):
        def dec(f): O[name]=(f,valid); return f
        return dec
    def cur(w): return w.objs[w.i],w.refs[w.i]
    def setk(name,lk,size,*,oin=None,ic=None,ice=None,ice_want=None):
        def f(w):
            o,r=cur(w)
            kw={}
            if size is not None: kw['imagersize']=w.h(np.array(size))
            if oin: kw.update(optimization_inputs=w.hd(oi(oin)),icam_intrinsics=ic)
            if ice is not None: kw['icam_extrinsics']=ice
            o.intrinsics((lk[0],w.h(lk[1].copy())),**kw)
            r.lens,r.k=lk[0],lk[1].copy()
            if size is not None: r.size=tuple(size)
            r.region=None; r.oi=oin; r.ici=ic if oin else None; r.ice=ice_want if oin else None
        O[name]=(f,True)
    setk('intrinsics pinhole',PIN,None); setk('intrinsics opencv4 and imagersize',CV4,(1000,500)); setk('intrinsics with optimization inputs A',PIN,(640,480),oin='A',ic=0,ice_want=-1)
    setk('intrinsics with optimization inputs moving',PIN,None,oin='C',ic=0,ice=2,ice_want=2)
    for nm,inv,isRt,e in (('rt_cam_ref',0,0,E1),('rt_ref_cam',1,0,E2),('Rt_cam_ref',0,1,E3),('Rt_ref_cam',1,1,E1),('extrinsics_rt_toref',1,0,E1),('extrinsics_Rt_fromref',0,1,E2)):
        def f(w,nm=nm,inv=inv,isRt=isRt,e=e):
            o,r=cur(w); X=poses.Rt(e)
            getattr(o,nm)(w.h(X.astype(float) if isRt else e.copy())); r.Rt=poses.inv_Rt(X) if inv else X
        O[nm]=(f,True)
    def reg(name,a,want):
        def f(w):
            o,r=cur(w); o.valid_intrinsics_region(w.h(a.copy())); r.region=want
        O[name]=(f,True)
    reg('region open',OPEN,np.r_[OPEN,OPEN[:1]]); reg('region closed',CLOSED,CLOSED); reg('region empty',np.zeros((0,2)),np.zeros((0,2)))
    @op('region reset')
    def f(w): o,r=cur(w); o.valid_intrinsics_region_reset(); r.region=None
    @op('optimization_inputs_reset')
    def f(w): o,r=cur(w); o.optimization_inputs_reset(); r.oi=None; r.ici=None; r.ice=None
    def dup(maker):
        def f(w):
            o,r=cur(w); n=maker(o)
            w.objs=[o,n]; w.refs=[r,r.clone()]; w.i=1 # continue with the copy, the original must not follow
        return f
    def reread(o): s=io.StringIO(); o.write(s); s.seek(0); return mrcal.cameramodel(s)
    O['copy']=(dup(lambda o: mrcal.cameramodel(o)),True); O['deepcopy']=(dup(copy.deepcopy),True); O['write and read']=(dup(reread),True)
    @op('switch to the other object')
    def f(w):
        if len(w.objs)>1: w.i=1-w.i
    @op('overwrite every array passed or returned')
    def f(w):
        for a in w.held:
            if a.flags.writeable: a[...]=a.dtype.type(77)
        w.held=[]
    # rejected
    import types
    bads={
     'intrinsics of a wrong length':lambda o: o.intrinsics((PIN[0],np.zeros(5))),
     'intrinsics of an unknown model':lambda o: o.intrinsics(('LENSMODEL_X',np.zeros(4))),
     'intrinsics not numeric':lambda o: o.intrinsics((PIN[0],['a']*4)),
     'intrinsics None elements':lambda o: o.intrinsics((PIN[0],[None]*4)),
     'intrinsics with a bad imagersize':lambda o: o.intrinsics(CV4,imagersize=(0,480)),
     'intrinsics with a short imagersize':lambda o: o.intrinsics(CV4,imagersize=(480,)),
     'intrinsics with a fractional imagersize':lambda o: o.intrinsics(CV4,imagersize=(480.5,3)),
     'imagersize alone':lambda o: o.intrinsics(imagersize=(480,3)),
     'imagersize setter':lambda o: o.imagersize((480,3)),
     'optimization inputs, no camera':lambda o: o.intrinsics(PIN,imagersize=(9,9),optimization_inputs=oi('A')),
     'optimization inputs, camera out of range':lambda o: o.intrinsics(PIN,imagersize=(9,9),optimization_inputs=oi('A'),icam_intrinsics=9),
     'optimization inputs, negative camera':lambda o: o.intrinsics(PIN,imagersize=(9,9),optimization_inputs=oi('A'),icam_intrinsics=-1),
     'optimization inputs not a dict':lambda o: o.intrinsics(PIN,imagersize=(9,9),optimization_inputs=[1],icam_intrinsics=0),
     'optimization inputs of a moving camera, no extrinsics':lambda o: o.intrinsics(CV4,imagersize=(9,9),optimization_inputs=oi('C'),icam_intrinsics=0),
     'optimization inputs that conflict':lambda o: o.intrinsics(CV4,imagersize=(9,9),optimization_inputs=dict(oi('A'),extrinsics_rt_fromref=np.ones((1,6))),icam_intrinsics=0),
     'camera without optimization inputs':lambda o: o.intrinsics(CV4,icam_intrinsics=0),
     'rt_cam_ref short':lambda o: o.rt_cam_ref(np.zeros(5)),'rt_cam_ref 2D':lambda o: o.rt_cam_ref(np.zeros((2,6))),'rt_cam_ref text':lambda o: o.rt_cam_ref('abcdef'),
     'rt_ref_cam short':lambda o: o.rt_ref_cam(np.zeros(5)),'rt_ref_cam 2D':lambda o: o.rt_ref_cam(np.zeros((6,6))),
     'Rt_cam_ref transposed':lambda o: o.Rt_cam_ref(np.zeros((3,4))),'Rt_ref_cam 3D':lambda o: o.Rt_ref_cam(np.zeros((2,4,3))),
     'region of 2 points':lambda o: o.valid_intrinsics_region(np.array([(1.,2),(3,4)])),'region 1D':lambda o: o.valid_intrinsics_region(np.arange(8.)),
     'region Nx3':lambda o: o.valid_intrinsics_region(np.ones((5,3))),'region text':lambda o: o.valid_intrinsics_region('x'),
    }
    def badop(g):
        def f(w): g(w.objs[w.i])
        return f
    for k,g in bads.items(): O['BAD '+k]=(badop(g),False)
    return O
def runseq(O,init,seq):
    """returns a problem, the number of transitions, the final reference state"""
    w=World(init); t=0
    for j,name in enumerate(seq):
        f,valid=O[name]; t+=1
        before=[r.key() for r in w.refs]
        w.reread=w.reread or name=="write and read"
        try: f(w); raised=None
        except Exception as e: raised=e
        if valid and raised is not None: return ('valid operation refused',init,seq[:j+1],repr(raised)[:300]),t,None
        if not valid and raised is None: return ('invalid operation accepted',init,seq[:j+1]),t,None
        if j==len(seq)-1 or name.startswith('overwrite'):
            b=w.check()
            if b: return ('state differs' if valid else 'rejected operation changed the object',init,seq[:j+1],b[:3]),t,None
    return None,t,tuple(r.key() for r in w.refs)+(w.i,)
def batch(item):
    init,first,depth=item
    O=ops(); names=list(O); bad=[]; t=0; n=0; states=set()
    core=[x for x in names if not x.startswith('BAD')]
    for rest in itertools.product(names,repeat=depth-len(first)):
        seq=first+rest
        # a rejected operation changes nothing (checked when it is last): inside a sequence it is a no-op, so it is only tried last
        if any(x.startswith('BAD') for x in seq[:-1]): continue
        b,k,st=runseq(O,init,seq); t+=k; n+=1
        if st: states.add(hash(st))
        if b:
            bad.append(b)
            if len(bad)>4: break
    return bad,n,t,states
def badthen(item):
    """a rejected operation, then any valid one, then another rejected one"""
    init,_,_=item; O=ops(); bad=[]; t=n=0; states=set()
    core=[x for x in O if not x.startswith('BAD')]; bads=[x for x in O if x.startswith('BAD')]
    for x in bads:
        for y in core:
            for pre in ((),('copy',)):
                b,k,st=runseq(O,init,pre+(x,y)); t+=k; n+=1
                if b: bad.append(b)
    return bad[:5],n,t,states
def ctor(_):
    """constructor arguments: every subset of the groups, valid ones agree, invalid ones are refused"""
    import mrcal,poses
    bad=[]; n=0
    X=poses.Rt(E1); ext=dict(rt_cam_ref=E1,Rt_cam_ref=X.astype(float),extrinsics_rt_fromref=E1,extrinsics_Rt_fromref=X.astype(float),
      rt_ref_cam=None,Rt_ref_cam=poses.inv_Rt(X).astype(float),extrinsics_rt_toref=None,extrinsics_Rt_toref=poses.inv_Rt(X).astype(float))
    m=mrcal.cameramodel(intrinsics=PIN,imagersize=(640,480),rt_cam_ref=E1); ext['rt_ref_cam']=ext['extrinsics_rt_toref']=m.rt_ref_cam()
    A=dict(intrinsics=PIN,imagersize=(640,480)); 
    for g in itertools.product((0,1),repeat=6): # intrinsics,imagersize,file/model,optimization inputs,icam_intrinsics,icam_extrinsics
        for e in [()]+[(x,) for x in ext]+[('rt_cam_ref','rt_ref_cam'),('Rt_cam_ref','rt_cam_ref')]:
            kw={x:ext[x] for x in e}
            if g[0]: kw['intrinsics']=PIN
            if g[1]: kw['imagersize']=(640,480)
            if g[2]: kw['file_or_model']=m
            if g[3]: kw['optimization_inputs']=oi('A')
            if g[4]: kw['icam_intrinsics']=0
            if g[5]: kw['icam_extrinsics']=-1
            disc=g[0]+g[1]+len(e); o=g[3]+g[4]+g[5]
            ok=(g[2] and not disc and not o) or (not g[2] and g[0] and g[1] and len(e)<2 and not o) or (not g[2] and not disc and g[3] and g[4])
            n+=1
            try: r=mrcal.cameramodel(**kw); raised=None
            except Exception as ex: raised=ex
            if ok and raised is not None: bad.append(('valid constructor refused',sorted(kw),repr(raised)[:200]))
            elif not ok and raised is None: bad.append(('invalid constructor accepted',sorted(kw)))
            elif ok and not o:
                w=X.astype(float) if e or g[2] else np.r_[np.eye(3),np.zeros((1,3))]
                if not np.allclose(r.Rt_cam_ref(),w,atol=1e-9) or r.intrinsics()[0]!=PIN[0] or tuple(r.imagersize())!=(640,480): bad.append(('constructor: different values',sorted(kw)))
            elif ok:
                if (r.icam_intrinsics(),r.icam_extrinsics())!=(0,-1) or np.any(r.rt_cam_ref()) or not np.array_equal(r.intrinsics()[1],oi('A')['intrinsics'][0]) or not np.array_equal(r.imagersize(),oi('A')['imagersizes'][0]): bad.append(('constructor: different values',sorted(kw)))
    return bad[:6],n,n,set()
def main(c,bdir):
    import mrcal
    warnings.simplefilter('ignore')
    th=vf.TIER=='thorough'
    O=ops(); core=[x for x in O if not x.startswith('BAD')]
    items=[]
    for init in ('discrete','Rt_ref_cam','optimized'):
        for d in (1,2,3) if not th else (1,2,3):
            if d<3: items.append((init,(),d))
            elif th or init!='discrete': items+=[(init,(x,),d) for x in core]
        items.append((init,('BAD',),0))
    if th: items+=[('optimized',(x,y),4) for x in core for y in core]
    items.append(('ctor',(),0))
    def run(it):
        import os
        if it[0]=='ctor': return ctor(it)
        return badthen(it) if it[1]==('BAD',) else batch(it)
    n=t=0; states=set()
    for it,r in zip(items,vf.pmap(run,items,chunk=1)):
        if r[0]=='ok':
            bad,k,q,s=r[1]; n+=k; t+=q; states|=s
            for b in bad: c.violation(b[0],'%s'%(b,),dict(item=it,detail=[str(x) for x in b]))
        else: c.violation('case:'+r[0],'%s: %s'%(it,r[1]),dict(item=it))
    c.sample(dict(operations=list(O)))
    return dict(states=len(states),transitions=t,traces_validated_against_impl=n,depth=4 if th else 3,exhaustive=True)
if __name__=='__main__': vf.main(main,'P14','model_checking')
