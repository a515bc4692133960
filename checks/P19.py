#!/usr/bin/env python3
"""P19: rectified systems and rectification maps.

Enumerated: relative poses (baseline directions x yaws and pitches of both cameras x reference frame) x lens models
x rectification model x fields of view x centers x resolutions x edge margins, refusals included. Oracle: the documented
definition of the rectified system, evaluated from the poses in plain numpy; the maps pixel by pixel against an
independent unprojection, rotation and the library's (separately checked, P06) projection."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf,itertools
import numpy as np
import ref
def R_(r): return ref.R_from_r(np.asarray(r,float))
def unp(kind,f,q):
    u=(q[...,0]-f[2])/f[0]; v=(q[...,1]-f[3])/f[1]
    if kind=='LENSMODEL_LATLON': return np.stack((np.sin(u),np.cos(u)*np.sin(v),np.cos(u)*np.cos(v)),-1)
    return np.stack((u,v,np.ones_like(u)),-1)
def prj(kind,f,p):
    if kind=='LENSMODEL_LATLON':
        u=np.arcsin(p[...,0]/np.linalg.norm(p,axis=-1)); v=np.arctan2(p[...,1],p[...,2])
    else: u=p[...,0]/p[...,2]; v=p[...,1]/p[...,2]
    return np.stack((u*f[0]+f[2],v*f[1]+f[3]),-1)
LENSES=dict(
 pinhole=('LENSMODEL_PINHOLE',[300.,330.,159.5,121.],(320,240)),
 opencv8=('LENSMODEL_OPENCV8',[280.,290.,163.,117.,.05,-.01,.001,-.002,.003,.02,.01,.001],(320,240)),
 stereographic=('LENSMODEL_STEREOGRAPHIC',[150.,140.,100.,130.],(200,260)),
 lonlat=('LENSMODEL_LONLAT',[90.,100.,180.,100.],(360,200)),
 latlon=('LENSMODEL_LATLON',[95.,100.,150.,110.],(300,220)),
 cahvor=('LENSMODEL_CAHVOR',[280.,290.,163.,117.,.02,-.03,.01,-.02,.005],(320,240)),
 cahvore=('LENSMODEL_CAHVORE_linearity=0.40',[280.,290.,163.,117.,.02,-.03,.01,-.02,.005,0,0,0],(320,240)),
 splined=('LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=11_Ny=8_fov_x_deg=150',None,(320,240)))
def lens(n):
    t,i,s=LENSES[n]
    if i is None: k=np.arange(176); i=np.concatenate(([200.,210.,160.,120.],.02*np.sin(k*1.7)))
    return t,np.array(i,float),s
# the cameras, in the reference frame: center, orientation (rotation taking camera vectors to the reference)
DIRS=[(1,0,0),(-1,0,0),(0,1,0),(0,-1,0),(0,0,1),(0,0,-1),(1,.1,-.2),(1,0,1),(-.3,1,.4),(.2,-.1,-1),(3e-3,0,1),(1,1,-1)]
ORI=[(0,0,0),(0,.2,0),(.15,-.1,.3),(0,-.6,0),(.3,0,0),(0,0,np.pi/2),(0,1.4,.1),(0,np.pi/2,0)]
FRAMES=[(0,0,0,0,0,0),(.4,-1.2,.7,3.,-20.,5.)]
def pair(l0,l1,d,o0,o1,fr,scale=.4):
    import mrcal
    R,t=R_(FRAMES[fr][:3]),np.array(FRAMES[fr][3:])
    d=np.array(DIRS[d],float)*scale; ms=[]; geo=[]
    for l,c,o in ((l0,0*d,o0),(l1,d,o1)):
        Rrc=R@R_(ORI[o]); cc=R@c+t; geo.append((Rrc,cc))
        Rt=np.vstack((Rrc,cc)); n=lens(l)
        ms.append(mrcal.cameramodel(intrinsics=n[:2],imagersize=n[2],Rt_ref_cam=Rt))
    return ms,geo
def snap(m): return repr((m.intrinsics()[0],m.intrinsics()[1].tobytes(),tuple(m.imagersize()),m.rt_cam_ref().tobytes()))
def expected(ms,geo,kind,o):
    """(axes, baseline, az0, fx/fy wanted) or None if to be refused"""
    (R0,c0),(R1,c1)=geo; r=c1-c0; b=np.linalg.norm(r); 
    if not b>1e-6: return 'refuse',
    r=r/b; f=R0[:,2]+R1[:,2]; fn=np.linalg.norm(f)
    fp=f-r*(f@r)
    if fn<1e-6 or np.linalg.norm(fp)<1e-6: return 'refuse',
    z=fp/np.linalg.norm(fp); A=np.stack((r,np.cross(z,r),z))   # rows: the axes in ref
    fa,fe,m=o['az_fov_deg'],o['el_fov_deg'],o.get('az_edge_margin_deg',10.); a0=o.get('az0_deg'); e0=o.get('el0_deg',0)
    for v in [fa,fe,m,e0]+[o.get(k,-1) for k in ('pixels_per_deg_az','pixels_per_deg_el')]+([] if a0 is None else [a0]):
        if not np.isfinite(v): return 'refuse',
    if fa<=0 or fe<=0 or o.get('pixels_per_deg_az',-1)==0 or o.get('pixels_per_deg_el',-1)==0: return 'refuse',
    lim=90-m; may=False
    if a0 is None:
        a0=np.degrees(np.arcsin(np.clip(f@r/fn,-1,1)))
        if a0-fa/2<-lim-1e-3 or a0+fa/2>lim+1e-3:
            if fa>2*lim: return 'refuse',
            a0=np.sign(a0)*(lim-fa/2)
    elif a0-fa/2<-lim-1e-3 or a0+fa/2>lim+1e-3:
        # documented to apply to LATLON only, but enforced always
        if kind=='LENSMODEL_LATLON' or abs(a0)+fa/2>=90: return 'refuse',
        may=True
    if kind=='LENSMODEL_PINHOLE' and (abs(a0)+fa/2>=90 or abs(e0)+fe/2>=90): return 'refuse',
    return ('may' if may else 'accept'),A,b,a0,e0
def dirv(kind,a,e):
    """the viewing direction at an azimuth and elevation"""
    if kind=='LENSMODEL_LATLON': return np.array((np.sin(a),np.cos(a)*np.sin(e),np.cos(a)*np.cos(e)))
    return np.array((np.tan(a),np.tan(e),1.))
def check(ms,geo,kind,o,what):
    import mrcal
    bad=[]; before=[snap(m) for m in ms]
    x=expected(ms,geo,kind,o)
    o=dict(o); scale={k:o.get(k,-1) for k in ('pixels_per_deg_az','pixels_per_deg_el')}
    # resolution and so size wanted
    want=None
    if x[0]!='refuse':
        _,A,b,a0,e0=x; want=[]
        for k,i in (('pixels_per_deg_az',0),('pixels_per_deg_el',1)):
            s=scale[k]
            if s<0:
                h=1e-5; v=[np.radians(a0),np.radians(e0)]; q=[]
                for sg in (1,-1):
                    w=list(v); w[i]+=sg*h
                    q.append(mrcal.project(geo[0][0].T@(A.T@dirv(kind,*w)),*ms[0].intrinsics()))
                s=-s*np.linalg.norm(q[0]-q[1])/2/h*np.pi/180
            want.append(s)
        if any(not np.isfinite(w) for w in want): x=('unspecified',)
        elif any(w*o[k]<.5-1e-6 for w,k in zip(want,('az_fov_deg','el_fov_deg'))) and kind=='LENSMODEL_LATLON': x=('refuse',)
        elif any(w*o[k]<2 for w,k in zip(want,('az_fov_deg','el_fov_deg'))) and kind=='LENSMODEL_PINHOLE': x=('unspecified',)
        elif any(w*o[k]>1e5 for w,k in zip(want,('az_fov_deg','el_fov_deg'))): x=('unspecified',)
    try: rm,md=mrcal.rectified_system(ms,rectification_model=kind,return_metadata=True,**o); e=None
    except Exception as ex: e=ex
    if [snap(m) for m in ms]!=before: bad.append('models changed')
    if x[0]=='unspecified': return bad,None,0
    if e is not None:
        if x[0]=='accept': bad.append('refused: %s %s'%(type(e).__name__,e))
        return bad,None,0
    if x[0]=='refuse': bad.append('accepted: %s %s %s'%(rm[0].intrinsics()[1],rm[0].imagersize(),rm[0].rt_cam_ref())); return bad,None,0
    _,A,b,a0,e0=x
    def cl(n,a,w,tol):
        if not np.all(np.abs(np.asarray(a,float)-w)<=tol): bad.append('%s: %s, expected %s'%(n,np.asarray(a).tolist(),np.asarray(w).tolist()))
    f=rm[0].intrinsics()[1]; N=rm[0].imagersize()
    if any(m.intrinsics()[0]!=kind for m in rm) or tuple(rm[1].imagersize())!=tuple(N) or rm[1].intrinsics()[1].tobytes()!=f.tobytes(): bad.append('intrinsics differ')
    sc=1+np.abs(geo[0][1]).max()
    fuzz=1e-7/min(1,np.linalg.norm((geo[0][0][:,2]+geo[1][0][:,2])@A.T[:,2:]))
    for i in range(2):
        Rt=rm[i].Rt_ref_cam()
        cl('axes of camera %d'%i,Rt[:3].T,A,fuzz); cl('center of camera %d'%i,Rt[3],geo[i][1],fuzz*sc)
    cl('baseline',md['baseline'],b,1e-9*sc)
    cl('az0',md['az0_deg'],a0,1e-5); cl('el0',md['el0_deg'],e0,1e-9)
    cl('az_fov',md['az_fov_deg'],o['az_fov_deg'],1e-9); cl('el_fov',md['el_fov_deg'],o['el_fov_deg'],1e-9)
    for i,(a,k,fk) in enumerate(((np.radians(a0),'pixels_per_deg_az','az_fov_deg'),(np.radians(e0),'pixels_per_deg_el','el_fov_deg'))):
        fov=o[fk]; w=want[i]
        if kind=='LENSMODEL_LATLON':
            ppd=md[k]
            cl('resolution '+k,ppd,w,.5/fov+1e-4*w)
            cl('focal length %d'%i,f[i],ppd*180/np.pi,1e-8*f[i]); cl('size %d'%i,N[i],ppd*fov,1e-6)
            cl('center %d'%i,(((N[i]-1)/2-f[2+i])/f[i]),a,1e-7); cl('field of view %d'%i,N[i]/f[i]*180/np.pi,fov,1e-6)
            if abs(N[i]-w*fov)>.5+1e-4*w*fov: bad.append('size %d: %d, expected %g'%(i,N[i],w*fov))
        else:
            cl('resolution '+k,md[k],w,1e-4*w)
            cl('focal length %d'%i,f[i],md[k]*180/np.pi*np.cos(a)**2,1e-8*f[i])
            cc=f[2+i]; last=2*(np.tan(a)*f[i]+cc)   # the center sees az0
            cl('field of view %d'%i,np.degrees(np.arctan((last-cc)/f[i])+np.arctan(cc/f[i])),fov,1e-5)
            cl('size %d'%i,N[i]-1,last,.5+1e-6)
    return bad,rm,1
def mapcheck(ms,geo,rm,kind,epi=True):
    import mrcal
    bad=[]; px=0
    f=rm[0].intrinsics()[1]; W,H=map(int,rm[0].imagersize())
    if W*H>400000: return bad,0
    b4=[snap(m) for m in list(ms)+list(rm)]
    maps=mrcal.rectification_maps(ms,rm)
    if b4!=[snap(m) for m in list(ms)+list(rm)]: bad.append('models changed')
    if maps.shape!=(2,H,W,2) or maps.dtype!=np.float32: bad.append('map is %s %s'%(maps.shape,maps.dtype)); return bad,0
    q=np.stack(np.meshgrid(np.arange(W,dtype=float),np.arange(H,dtype=float)),-1)
    v=unp(kind,f,q)
    for i in range(2):
        vc=v@(rm[i].Rt_ref_cam()[:3].T@geo[i][0])
        qw=mrcal.project(vc,*ms[i].intrinsics())
        # not where the projection is (nearly) singular
        vn=vc/np.linalg.norm(vc,axis=-1,keepdims=True); dq=0
        for k in range(6):
            w=vn.copy(); w[...,k%3]+=1e-7 if k<3 else -1e-7; dq=np.maximum(dq,np.abs(mrcal.project(w,*ms[i].intrinsics())-qw).max(-1))
        ok=np.isfinite(dq)&(dq<1e-3)&np.isfinite(qw).all(-1)
        d=np.abs(maps[i]-qw).max(-1)
        lim=2e-4+4e-7*np.abs(qw).max(-1)+dq*.05
        nok=ok&~(d<=lim)
        if nok.any(): y,x=np.argwhere(nok)[0]; bad.append('map %d at (%d,%d) of %dx%d: %s, expected %s (%d such pixels)'%(i,x,y,W,H,maps[i][y,x],qw[y,x],nok.sum()))
        px+=int(ok.sum())
    # points: rows match, and disparity shrinks to 0
    g=np.stack(np.meshgrid(np.linspace(0,W-1,5),np.linspace(0,H-1,5)),-1).reshape(-1,2)
    v=unp(kind,f,g); v/=np.linalg.norm(v,axis=-1,keepdims=True)
    base=np.linalg.norm(geo[1][1]-geo[0][1])
    for D in (3.,30.,1e3,1e6):
        p=v*D*base@rm[0].Rt_ref_cam()[:3].T+geo[0][1]
        qs=[]
        for m in rm: Rt=m.Rt_cam_ref(); qs.append(prj(kind,f,p@Rt[:3].T+Rt[3]))
        if np.abs(qs[0]-g).max()>1e-5*W: bad.append('point at %g baselines projects off by %g'%(D,np.abs(qs[0]-g).max()))
        if np.abs(qs[0][:,1]-qs[1][:,1]).max()>1e-5*W: bad.append('rows differ by %g'%np.abs(qs[0][:,1]-qs[1][:,1]).max())
        if (qs[0][:,0]-qs[1][:,0]).min()<-1e-5*W: bad.append('negative disparity')
    return bad,px
OPTS=[dict(az_fov_deg=a,el_fov_deg=e,**x) for a,e in ((50,40),(100,30),(3,80),(90,90),(159,20),(1.,1.)) for x in
      (dict(),dict(pixels_per_deg_az=2.,pixels_per_deg_el=3.),dict(pixels_per_deg_az=-.5,pixels_per_deg_el=-.25),dict(az0_deg=10.,el0_deg=-7.,pixels_per_deg_az=-.3),dict(az0_deg=0.,el0_deg=20.,pixels_per_deg_el=1.3,pixels_per_deg_az=.7),dict(az0_deg=-25.),dict(az_edge_margin_deg=25.,pixels_per_deg_az=1.,pixels_per_deg_el=1.))]
REFUSE=[dict(az_fov_deg=0.,el_fov_deg=40.),dict(az_fov_deg=40.,el_fov_deg=0.),dict(az_fov_deg=-3.,el_fov_deg=40.),dict(az_fov_deg=50.,el_fov_deg=-40.),
  dict(az_fov_deg=50.,el_fov_deg=40.,pixels_per_deg_az=0.),dict(az_fov_deg=50.,el_fov_deg=40.,pixels_per_deg_el=0.),
  dict(az_fov_deg=165.,el_fov_deg=40.),dict(az_fov_deg=50.,el_fov_deg=40.,az0_deg=60.),dict(az_fov_deg=50.,el_fov_deg=40.,az0_deg=-60.),dict(az_fov_deg=50.,el_fov_deg=40.,az0_deg=170.),
  dict(az_fov_deg=100.,el_fov_deg=40.,az_edge_margin_deg=41.),dict(az_fov_deg=50.,el_fov_deg=.1,pixels_per_deg_el=1.),dict(az_fov_deg=.1,el_fov_deg=5,pixels_per_deg_az=1.),
  dict(az_fov_deg=50.,el_fov_deg=100.,el0_deg=50.),dict(az_fov_deg=50.,el_fov_deg=60.,el0_deg=-80.),dict(az_fov_deg=50.,el_fov_deg=10.,el0_deg=130.),dict(az_fov_deg=50.,el_fov_deg=185.),dict(az_fov_deg=50.,el_fov_deg=180.)]+\
  [dict(dict(az_fov_deg=50.,el_fov_deg=40.),**{k:v}) for k in ('az_fov_deg','el_fov_deg','az0_deg','el0_deg','az_edge_margin_deg','pixels_per_deg_az','pixels_per_deg_el') for v in (np.nan,np.inf,-np.inf) if not (k in ('az0_deg','az_edge_margin_deg') and v==v)]
KINDS=('LENSMODEL_LATLON','LENSMODEL_PINHOLE')
def run(it):
    bad=[]; n=0; px=0; acc=0
    what,*a=it
    if what=='geo':
        d,o0,l,th=a
        for o1,fr,kind in itertools.product(range(len(ORI)),range(2),KINDS):
            ms,geo=pair(l,'pinhole' if l!='pinhole' else 'opencv8',d,o0,o1,fr)
            sel=[dict(az_fov_deg=50.,el_fov_deg=40.),dict(az_fov_deg=120,el_fov_deg=33,pixels_per_deg_az=.8,pixels_per_deg_el=1.1),dict(az_fov_deg=60.,el_fov_deg=50,az0_deg=5,el0_deg=-20,pixels_per_deg_az=1.,pixels_per_deg_el=-.2)]
            for o in sel:
                w='%s baseline %s, cameras %s %s, frame %d, %s, %s'%(l,DIRS[d],ORI[o0],ORI[o1],fr,kind,o)
                b,rm,k=check(ms,geo,kind,o,w); n+=1; acc+=k; bad+=[(w,x) for x in b]
                if rm is not None and (th or (o1+d)%8==0):
                    b,k=mapcheck(ms,geo,rm,kind); px+=k; bad+=[(w,x) for x in b]
    if what=='opts':
        d,l,kind=a
        for os_ in (OPTS,REFUSE):
            for o in os_:
                ms,geo=pair(l,'stereographic',d,1,2,1); w='%s baseline %s, %s, %s'%(l,DIRS[d],kind,o)
                b,rm,k=check(ms,geo,kind,o,w); n+=1; acc+=k; bad+=[(w,x) for x in b]
                if rm is not None:
                    b,k=mapcheck(ms,geo,rm,kind); px+=k; bad+=[(w,x) for x in b]
    if what=='misc': b,k=misc(); bad+=b; n+=k
    return bad[:60],n,px,acc
def misc():
    """refusals of the other arguments"""
    import mrcal
    bad=[]; n=0; O=dict(az_fov_deg=50.,el_fov_deg=40.)
    def refuse(what,f):
        nonlocal n; n+=1
        try: f(); bad.append((what,'accepted'))
        except Exception as e: pass
    ms,geo=pair('pinhole','pinhole',0,1,2,1)
    for b in (0,1e-9,5e-7):
        m=pair('pinhole','pinhole',0,1,2,1,scale=b)[0]; refuse('baseline %g'%b,lambda: mrcal.rectified_system(m,**O))
    for k in ('LENSMODEL_LONLAT','LENSMODEL_OPENCV4','LENSMODEL_PINHOLEX','',None,3,'LENSMODEL_STEREOGRAPHIC','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=11_Ny=8_fov_x_deg=150'): refuse('rectification model %r'%(k,),lambda: mrcal.rectified_system(ms,rectification_model=k,**O))
    for i in range(2):
        for e in itertools.product((0,.01),repeat=3):
            m=list(pair('pinhole','pinhole',0,1,2,1)[0]); t,x,s=lens('cahvore'); x=x.copy(); x[-3:]=e
            m[i]=mrcal.cameramodel(intrinsics=(t,x),imagersize=s,rt_cam_ref=m[i].rt_cam_ref())
            if any(e): refuse('noncentral camera %d, E=%s'%(i,e),lambda: mrcal.rectified_system(m,**O))
            else:
                n+=1; mrcal.rectified_system(m,**O)
    for k in ('az_fov_deg','el_fov_deg'):
        o=dict(O); del o[k]; refuse('no %s'%k,lambda: mrcal.rectified_system(ms,**o))
    # rectification_maps() with models that aren't a rectified pair
    rm=mrcal.rectified_system(ms,**O,pixels_per_deg_az=.3,pixels_per_deg_el=.3); rp=mrcal.rectified_system(ms,**O,pixels_per_deg_az=.3,pixels_per_deg_el=.3,rectification_model='LENSMODEL_PINHOLE')
    def alter(m,**kw):
        d=dict(intrinsics=m.intrinsics(),imagersize=m.imagersize(),rt_cam_ref=m.rt_cam_ref()); d.update(kw); return mrcal.cameramodel(**d)
    f=rm[0].intrinsics()[1]; rt=rm[1].rt_cam_ref()
    for what,r in (('one model',rm[:1]),('three',list(rm)+[rm[1]]),('mixed',(rm[0],rp[1])),('lonlat',[alter(m,intrinsics=('LENSMODEL_LONLAT',f)) for m in rm]),
        ('focal lengths',(rm[0],alter(rm[1],intrinsics=(rm[1].intrinsics()[0],f*[1.1,1,1,1])))),('size',(rm[0],alter(rm[1],imagersize=[x+1 for x in rm[1].imagersize()]))),
        ('rotated',(rm[0],alter(rm[1],rt_cam_ref=rt+[.1,0,0,0,0,0]))),('shifted',(rm[0],alter(rm[1],rt_cam_ref=rt+[0,0,0,0,.1,0]))),('shifted',(rm[0],alter(rm[1],rt_cam_ref=rt+[0,0,0,0,0,.1]))),('none',None)):
        refuse('maps: %s'%what,lambda: mrcal.rectification_maps(ms,r))
    # tuples, lists and files equally
    for mm in (tuple(ms),list(ms)):
        n+=1
        if mrcal.rectified_system(mm,**O)[0].rt_cam_ref().tobytes()!=mrcal.rectified_system(ms,**O)[0].rt_cam_ref().tobytes(): bad.append(('sequence','differs'))
    return bad,n
def main(c,b):
    th=vf.TIER=='thorough'
    items=[('misc',)]
    for d in range(len(DIRS)):
        for o0 in range(len(ORI)):
            for l in (list(LENSES) if th else [list(LENSES)[(d+o0)%len(LENSES)]]): items.append(('geo',d,o0,l,th))
    for d in ((0,3,7,9) if th else (6,)):
        for l in LENSES if th else ('opencv8','lonlat','splined'):
            for k in KINDS: items.append(('opts',d,l,k))
    n=px=acc=0
    for it,r in zip(items,vf.pmap(run,items,chunk=1)):
        if r[0]!='ok': c.violation('crash','%s: %s'%(str(it)[:100],str(r[1])[-400:]),dict(item=str(it))); continue
        bad,k,p,a=r[1]; n+=k; px+=p; acc+=a
        for w,x in bad: c.violation(it[0],'%s: %s'%(w,x),dict(item=str(it),what=w,got=x))
    c.sample(dict(baselines=DIRS,orientations=ORI,lenses=list(LENSES),options=OPTS[:3],refusals=[str(r) for r in REFUSE[:4]]))
    return dict(evaluations=n,distinct_nontrivial=acc,pixels=px,exhaustive=True,
        rule='evaluation: one rectified system, over every relative pose of the stated lists (12 baseline directions x 8x8 orientations x 2 frames) with both rectification models and 3 option sets, and every option set and refusal of the lists; the maps compared at every pixel. Nontrivial: the system was built and its full geometry judged')
if __name__=='__main__': vf.main(main,'P19','exploration')
