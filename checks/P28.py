#!/usr/bin/python3
"""P28: the command-line tools that convert and combine models, and those that process corner tables.

Enumerated: (cahvor, kalibr, ros) every supported lens model x parameters x pose x valid-intrinsics region x imager size x way
to name the input and the output, converted to the other format and back; every single malformation; (files) every list of
up to 3 kinds of input x --force x --outdir: which files appear or change; (graft) pairs of models x options; (reproject)
pairs of models x lists of pixels; (corners) every rotation x board size x set of images, every culling criterion x
threshold x row pattern; (inside) regions x tables; (lens) conversions to a richer lens; (fov). The real tools, each in a process
and a scratch directory of its own. Oracle: the model that went in, lib/ref.py, a direct reading of the tools' documentation."""
import os,sys,itertools,shutil,tempfile,signal,time,subprocess,json,io,warnings
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf; import numpy as np
THOROUGH=os.environ.get('VERIF_TIER')=='thorough'
BDIR=None
def run(tool,args,stdin='',cwd=None,timeout=240):
    """the tool, as from a shell. (status,stdout,stderr)"""
    d=tempfile.mkdtemp(prefix='io'); so,se,si=[os.path.join(d,x) for x in 'oei']
    open(si,'w').write(stdin)
    sys.stdout.flush(); sys.stderr.flush()
    path=os.path.join(BDIR,tool)
    pid=os.fork()
    if pid==0:
        rc=1
        try:
            os.setsid()
            signal.alarm(timeout)
            for n,(p,m) in enumerate(((si,os.O_RDONLY),(so,os.O_WRONLY|os.O_CREAT),(se,os.O_WRONLY|os.O_CREAT))):
                f=os.open(p,m,0o644); os.dup2(f,n); os.close(f)
            if cwd: os.chdir(cwd)
            with open(path,'rb') as f: py=b'python' in f.readline()
            if not py: os.execv('/bin/bash',['/bin/bash',path]+list(args))
            sys.stdin=open(0,'r',closefd=False); sys.stdout=open(1,'w',closefd=False); sys.stderr=open(2,'w',closefd=False)
            sys.__stdout__=sys.stdout; sys.__stderr__=sys.stderr; sys.__stdin__=sys.stdin
            sys.argv=[path]+list(args)
            import runpy
            try: runpy.run_path(path,run_name='__main__'); rc=0
            except SystemExit as e:
                rc=e.code if isinstance(e.code,int) else 0 if e.code is None else 1
                if isinstance(e.code,str): sys.stderr.write(e.code)
            except BaseException:
                import traceback; traceback.print_exc()
            sys.stdout.flush(); sys.stderr.flush()
        finally: os._exit(rc&255)
    _,st=os.waitpid(pid,0)
    rc=os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
    r=rc,open(so,errors='replace').read(),open(se,errors='replace').read()
    shutil.rmtree(d); return r
class scratch:
    def __enter__(s):
        s.d=tempfile.mkdtemp(prefix='p28_'); s.old=os.getcwd(); os.chdir(s.d); return s.d
    def __exit__(s,*a): os.chdir(s.old); shutil.rmtree(s.d)
def slurp(d='.'):
    o={}
    for r,_,fs in os.walk(d):
        for f in fs:
            p=os.path.join(r,f); o[os.path.relpath(p,d)]=open(p).read()
    return o

# ---------------------------------------------------------------- models
POSES=[(0,0,0,0,0,0),(.1,-.2,.3,1,2,-3),(0,0,3.1,-10,.5,0),(-1e-5,1e-5,0,1e-5,0,-1e-5),(2.1,1.7,-.4,100,-200,50.5),(0,np.pi/2,0,0,0,1e-5)]
REGIONS=[None,np.zeros((0,2)),np.array(((10,20),(200,30),(150.25,160.5),(20,100),(10,20.))),np.array(((1,2),(30,4),(5,60),(1,2.)))]
SIZES=[(640,480),(1,3),(4000,2200)]
def lenses():
    o=[]
    c=[(600.,610.,320.,240.),(1234.567,1180.25,-12.,377.125),(80.,75.,0.,0.),(1e4,2e4,1e-5,1999.5)]
    K={'PINHOLE':[()],'OPENCV4':[(-.2,.1,.001,-.002),(0,0,0,0),(1e-5,-1e-5,1e-5,0)],'OPENCV5':[(-.2,.1,.001,-.002,1e-5)],
       'OPENCV8':[(-.2,.1,.001,-.002,.05,.1,-.1,.02)],'OPENCV12':[(-.2,.1,.001,-.002,.05,.1,-.1,.02,.001,-.001,1e-5,.0005)],
       'CAHVOR':[(.01,-.02,.001,.02,-.1),(0,0,1e-5,0,0),(-.3,.2,.01,.01,0)]}
    for E in ('0','1','0.37','0.00','-0.25','1e-05','-2','0.123456789','12.5'):
        K['CAHVORE_linearity='+E]=[(.01,-.02,.001,.02,-.1,0,0,0),(-.05,.03,.1,0,1e-5,.01,-.02,1e-5)]
    for k,v in K.items():
        for i,d in enumerate(v):
            for j,cc in enumerate(c): o.append(('LENSMODEL_'+k,cc+tuple(d),i+j))
    return o
def model(lens,k,pose=POSES[0],region=None,size=SIZES[0]):
    import mrcal
    m=mrcal.cameramodel(intrinsics=(lens,np.array(k,float)),imagersize=np.array(size,np.int32),rt_cam_ref=np.array(pose,float))
    if region is not None: m.valid_intrinsics_region(region)
    return m
def family(l): return l.split('_linearity=')[0],float(l.split('=')[1]) if '_linearity=' in l else None
def same_lens(a,b): return family(a)==family(b)
def is_pinhole_cahvor(lens,k): return lens=='LENSMODEL_CAHVOR' and not np.any(np.array(k[6:9]))
def pose_diff(a,b):
    import ref
    A,B=ref.R_from_r(np.array(a[:3],float)),ref.R_from_r(np.array(b[:3],float))
    return abs(A-B).max(),abs(np.array(a[3:])-np.array(b[3:])).max()
def judge(m0,m1,tol_k,tol_p,tol_reg,what):
    """m1, that came back, against m0, that went in"""
    l0,k0=m0.intrinsics(); l1,k1=m1.intrinsics()
    if not same_lens(l0,l1): return f'{what}: lens model {l0} became {l1}'
    # the text has 10 decimals of unit vectors times the focal lengths
    tk=tol_k*(1+abs(k0)); tk[:4]+=(tol_k>=1e-9)*2e-10*abs(k0[:4]).sum()
    if k0.shape!=k1.shape or not (abs(k0-k1)<=tk).all(): return f'{what}: intrinsics {k0.tolist()} became {k1.tolist()}'
    if tuple(m0.imagersize())!=tuple(m1.imagersize()): return f'{what}: imager size {m0.imagersize()} became {m1.imagersize()}'
    dR,dt=pose_diff(m0.rt_cam_ref(),m1.rt_cam_ref())
    s=1+np.abs(m0.rt_cam_ref()[3:]).max()
    if not (dR<tol_p and dt<tol_p*s): return f'{what}: pose {m0.rt_cam_ref().tolist()} became {m1.rt_cam_ref().tolist()}'
    if tol_reg is not None:
        r0,r1=m0.valid_intrinsics_region(),m1.valid_intrinsics_region()
        if (r0 is None)!=(r1 is None): return f'{what}: valid-intrinsics region {r0 if r0 is None else r0.tolist()} became {r1 if r1 is None else r1.tolist()}'
        if r0 is not None and (r0.shape!=r1.shape or (r0.size and abs(r0-r1).max()>tol_reg)): return f'{what}: valid-intrinsics region {r0.tolist()} became {r1.tolist()}'

# ---------------------------------------------------------------- cahvor
def cahvor(it):
    import mrcal
    lens,k,pose,region,size,tools=it; n=0
    m0=model(lens,k,pose,region,size); bad=[]
    def check(m1,what):
        e=judge(m0,m1,1e-8,1e-9,.0051,what)
        if e: bad.append(('cahvor-'+what.split()[0],e))
    with scratch() as d:
        m0.write('a.cahvor',note='first\nsecond'); n+=1
        t=open('a.cahvor').read()
        if not t.startswith('# first\n# second\n'): bad.append(('cahvor-note','the note is not written at the top of the file'))
        check(mrcal.cameramodel('a.cahvor'),'api write(filename)')
        f=io.StringIO(); m0.write(f,cahvor=True,note='first\nsecond')
        if f.getvalue()!=t: bad.append(('cahvor-stream','write(file object, note) differs from write(filename, note)'))
        mrcal.cahvor.write('b.cahvor',m0); check(mrcal.cahvor.read('b.cahvor'),'module write(),read()')
        f=io.StringIO(); mrcal.cahvor.write(f,m0,'first\nsecond'); n+=1
        if f.getvalue()!=t: bad.append(('cahvor-module-note','cahvor.write(file object, note) differs from cahvor.write(filename, note)'))
        for ext in ('cahv','cahvore'):
            m0.write('e.'+ext)
            if '# ' in open('e.'+ext).readline() or 'Dimensions' not in open('e.'+ext).read(): bad.append(('cahvor-ext',f'.{ext} does not produce the cahvor format'))
        if tools:
            m0.write('x.y.cameramodel'); os.mkdir('o'); os.mkdir('o2')
            rc,so,se=run('mrcal-to-cahvor',['x.y.cameramodel']); n+=1
            if rc or not os.path.exists('x.y.cahvor'): return n,[('cahvor-tool',f'mrcal-to-cahvor failed: {se[-200:]}')]
            check(mrcal.cameramodel('x.y.cahvor'),'mrcal-to-cahvor file')
            rc,so,se=run('mrcal-from-cahvor',['--outdir','o','x.y.cahvor']); n+=1
            if rc or not os.path.exists('o/x.y.cameramodel'): return n,[('cahvor-tool',f'mrcal-from-cahvor failed: {se[-200:]}')]
            check(mrcal.cameramodel('o/x.y.cameramodel'),'mrcal-to-cahvor,mrcal-from-cahvor')
            t=open('x.y.cameramodel').read()
            for a in (['-'],[]):
                rc,so,se=run('mrcal-to-cahvor',a,t); n+=1
                if rc: bad.append(('cahvor-stdin',f'mrcal-to-cahvor {a}: status {rc} {se[-200:]}')); continue
                open('s.cahvor','w').write(so); check(mrcal.cameramodel('s.cahvor'),'mrcal-to-cahvor stdin')
                rc,so,se=run('mrcal-from-cahvor',a,so); n+=1
                if rc: bad.append(('cahvor-stdin',f'mrcal-from-cahvor {a}: status {rc} {se[-200:]}')); continue
                open('s.cameramodel','w').write(so); check(mrcal.cameramodel('s.cameramodel'),'mrcal-from-cahvor stdin')
    return n,bad
def cahvor_bad(it):
    """what can't be stored: an error, and no trace of it"""
    import mrcal
    lens,exists=it; import domain; bad=[]
    k=domain.intrinsics(lens,1); m=model(lens,k); n=0
    for what in ('cameramodel.write','cahvor.write','write(cahvor=True)'):
        with scratch():
            if exists: open('a.cahvor','w').write('precious')
            try:
                if what=='cameramodel.write': m.write('a.cahvor')
                elif what=='cahvor.write': mrcal.cahvor.write('a.cahvor',m)
                else: m.write('a.cahvor',cahvor=True)
                bad.append(('cahvor-unsupported',f'{what} of {lens} raised nothing'))
            except Exception as e: pass
            n+=1
            s=slurp()
            if s!=({'a.cahvor':'precious'} if exists else {}): bad.append(('cahvor-leftover',f'{what}: {lens} can\'t be stored: an error, but the file is now {s}; it existed before: {exists}'))
    with scratch():
        m.write('a.cameramodel')
        if exists: open('a.cahvor','w').write('precious')
        a=slurp(); rc,so,se=run('mrcal-to-cahvor',['--force','a.cameramodel']); n+=1
        if rc==0: bad.append(('cahvor-unsupported',f'mrcal-to-cahvor of {lens}: status 0'))
        if slurp()!=a: bad.append(('cahvor-leftover',f'mrcal-to-cahvor: {lens} can\'t be stored, but the files changed: {sorted(slurp())}'))
        rc,so,se=run('mrcal-to-cahvor',[],open('a.cameramodel').read()); n+=1
        if rc==0: bad.append(('cahvor-unsupported',f'mrcal-to-cahvor of {lens} to standard output: status 0'))
    return n,bad
def cahvor_malformed(it):
    import mrcal
    lens,k=it; m=model(lens,k,POSES[1],REGIONS[2]); n=0; bad=[]
    f=io.StringIO(); m.write(f,cahvor=True); L=f.getvalue().split('\n')
    keys=('Dimensions','C','A','H','V','O','R','E',lens)
    for i,l in enumerate(L):
        key=l.split('=')[0].strip()
        if key not in keys: continue
        need=key in keys[:5]
        v=l.split('=')[1].split()
        for what,r in (('missing',None),('short',f'{key} = '+' '.join(v[:-1])),('long',f'{key} = '+' '.join(v+['1'])),('text',f'{key} = '+' '.join(v[:-1]+['x'])),
                       ('single',f'{key} = 1.5'),('empty',f'{key} = ')):
            if what in('missing','empty') and not need: continue
            if key==lens and what=='single' and len(v)==1: continue
            t='\n'.join(L[:i]+([] if r is None else [r])+L[i+1:]); n+=1
            with scratch():
                open('a.cahvor','w').write(t)
                try: x=mrcal.cameramodel('a.cahvor')
                except Exception: pass
                else:
                    if not (key=='Dimensions' and what=='long'): bad.append(('cahvor-malformed',f'{lens}: {what} {key} accepted: {x.intrinsics()}')); continue
                rc,so,se=run('mrcal-from-cahvor',['a.cahvor']) if key!='Dimensions' else (1,'','')
                if rc==0 or sorted(slurp())!=['a.cahvor']: bad.append(('cahvor-malformed',f'{lens}: {what} {key}: mrcal-from-cahvor status {rc}, files {sorted(slurp())}'))
    for decl,want in (('CAHVORE1',1),('CAHVORE1,1',1),('CAHVORE1,1.0',1),('CAHVORE2',0),('CAHVORE2,0',0),('CAHVORE2,0.0',0),('CAHVORE3,0.37',.37),('CAHVORE3 , -0.5',-.5),('CAHVORE3,1e-3',1e-3),
                      ('CAHVORE1,0',None),('CAHVORE2,1',None),('CAHVORE3',None),('CAHVORE4,1',None),('CAHVORE0,1',None),('CAHVORE3,x',None),('CAHVORE3,--1',None)):
        if 'CAHVORE' not in lens: break
        t='\n'.join(f'Model = {decl} = general' if l.startswith('Model') else l for l in L); n+=1
        try: got=mrcal.lensmodel_metadata_and_config(mrcal.cahvor.read_from_string(t).intrinsics()[0])['linearity']
        except Exception as e: got=None
        if got!=want: bad.append(('cahvore-declaration',f'"Model = {decl}": linearity {got} instead of {want}'))
    return n,bad

# ---------------------------------------------------------------- kalibr
def compose(a,b):
    import ref
    R=ref.R_from_r(np.array(a[:3]))@ref.R_from_r(np.array(b[:3])); t=ref.transform(np.array(a),np.array(b[3:])[None])[0]
    return R,t
def kalibr(it):
    import mrcal,ref
    ms,c0w,c0r=it; n=0; bad=[]
    M=[model(*x) for x in ms]
    def rel(m,m0): return compose(m.rt_cam_ref(),ref.rt_invert(m0.rt_cam_ref()))
    def check(i,m1,first,what):
        m0=M[i]
        e=judge(m0,m1,1e-12 if 'CAHVOR' not in m0.intrinsics()[0] else 1e-9,1e9,None,what)
        if e: bad.append(('kalibr',e)); return
        if c0w or c0r:
            # relative poses are preserved, and camera 0 sits at the reference
            R,t=rel(m0,M[0])
        else: R,t=ref.R_from_r(m0.rt_cam_ref()[:3]),m0.rt_cam_ref()[3:]
        r1=m1.rt_cam_ref(); dR=abs(ref.R_from_r(r1[:3])-R).max(); dt=abs(r1[3:]-t).max()
        # the identity may be omitted, if within 1e-6
        tol=1.5e-6 if not (c0w or c0r) and abs(np.array(ms[0][2])).max()<1e-6 else 1e-9
        if not (dR<tol and dt<tol*(1+abs(t).max())): bad.append(('kalibr-pose',f'{what}: pose of camera {i} became {r1.tolist()}; expected R={R.tolist()}, t={t.tolist()}'))
    with scratch():
        names=[f'in{i}.cameramodel' for i in range(len(M))]
        for f,m in zip(names,M): m.write(f)
        a=slurp()
        args=(['--cam0-at-reference'] if c0w else [])
        rc,y,se=run('mrcal-to-kalibr',args+names); n+=1
        if rc: return n,[('kalibr-tool',f'mrcal-to-kalibr {[x[0] for x in ms]} failed: {se[-200:]}')]
        if len(M)==1:
            rc,y2,se=run('mrcal-to-kalibr',args+['-'],open(names[0]).read()); n+=1
            if y2!=y: bad.append(('kalibr-stdin',f'mrcal-to-kalibr - differs from mrcal-to-kalibr file: {se[-200:]}'))
        if slurp()!=a: bad.append(('kalibr-files','mrcal-to-kalibr changed files'))
        import yaml
        Y=yaml.safe_load(y)
        for i,(m,x) in enumerate(zip(M,ms)):
            d=Y[f'cam{i}']
            if 'CAHVOR' in x[0]: continue
            try: okc=np.array_equal(np.array(d['intrinsics'],float),np.array(x[1][:4],float)) and np.array_equal(np.array(d['distortion_coeffs'],float),np.array(x[1][4:],float)) and d['camera_model']=='pinhole' and d['distortion_model']==('radtan' if len(x[1])>4 else 'none') and list(d['resolution'])==list(m.imagersize())
            except Exception: okc=False
            if not okc: bad.append(('kalibr-yaml',f'{x[0]} {x[1]} written as {str(d)[:300]}'))
        a2=['--cam0-at-reference'] if c0r else []
        open('k.v2.yaml','w').write(y); os.mkdir('o')
        rc,so,se=run('mrcal-from-kalibr',a2+['--outdir','o','k.v2.yaml']); n+=1
        if rc: return n,bad+[('kalibr-tool',f'mrcal-from-kalibr of {[x[0] for x in ms]} failed: {se[-200:]}')]
        if sorted(os.listdir('o'))!=[f'k.v2-cam{i}.cameramodel' for i in range(len(M))]: return n,bad+[('kalibr-files',f'mrcal-from-kalibr wrote {os.listdir("o")}')]
        R=[open(f'o/k.v2-cam{i}.cameramodel').read() for i in range(len(M))]
        for i in range(len(M)): check(i,mrcal.cameramodel(f'o/k.v2-cam{i}.cameramodel'),False,f'chain of {len(M)}')
        for i in range(len(M)):
            rc,so,se=run('mrcal-from-kalibr',a2+['--camera',f'cam{i}','-'],y); n+=1
            if rc or so!=R[i]: bad.append(('kalibr-camera',f'--camera cam{i} - differs from what is extracted with all the others: status {rc} {se[-100:]}'))
            rc,so,se=run('mrcal-from-kalibr',a2+['--camera',f'cam{i}','k.v2.yaml']); n+=1
            if rc or open(f'k.v2-cam{i}.cameramodel').read()!=R[i]: bad.append(('kalibr-camera',f'--camera cam{i} differs from what is extracted with all the others: status {rc} {se[-100:]}'))
            if len([f for f in os.listdir('.') if f.startswith('k.v2-')])!=i+1: bad.append(('kalibr-files',f'--camera cam{i}: files {os.listdir(".")}'))
        rc,so,se=run('mrcal-from-kalibr',a2+['-'],y); n+=1
        if (rc!=0)!=(len(M)>1) or (rc==0 and so!=R[0]): bad.append(('kalibr-stdin',f'{len(M)} models from standard input: status {rc}, {len(so)} bytes on standard output'))
        # one in-line model
        if len(M)==1:
            import yaml
            open('one.yaml','w').write(''.join(l[2:]+'\n' for l in y.split('\n')[1:]))
            rc,so,se=run('mrcal-from-kalibr',a2+['one.yaml']); n+=1
            if rc or open('one.cameramodel').read()!=R[0]: bad.append(('kalibr-inline',f'a single in-line model: status {rc} {se[-200:]}'))
    return n,bad
def kalibr_malformed(it):
    import yaml
    lens,k=it; n=0; bad=[]
    m=[model(lens,k,POSES[i]) for i in (1,4)]
    with scratch():
        for i in (0,1): m[i].write(f'{i}.cameramodel')
        rc,y,se=run('mrcal-to-kalibr',['0.cameramodel','1.cameramodel'])
        if rc: return 1,[('kalibr-tool',se[-300:])]
        base=yaml.safe_load(y)
    def edits():
        for cam in ('cam0','cam1'):
            for key in ('camera_model','intrinsics','resolution','distortion_model','distortion_coeffs'):
                if key in base[cam]:
                    x=json.loads(json.dumps(base)); del x[cam][key]
                    if not(key=='distortion_coeffs' and base[cam]['distortion_model']=='none'): yield f'{cam}: no {key}',x
            def put(key,v):
                x=json.loads(json.dumps(base)); x[cam][key]=v; return x
            yield f'{cam}: unknown camera model',put('camera_model','omni')
            if 'distortion_model' in base[cam]: yield f'{cam}: unknown distortion model',put('distortion_model','fov')
            else: yield f'{cam}: cahvor(e) with a distortion model',put('distortion_model','radtan')
            I=base[cam]['intrinsics']; yield f'{cam}: intrinsics too short',put('intrinsics',I[:-1]); yield f'{cam}: intrinsics too long',put('intrinsics',I+[0.])
            yield f'{cam}: text in intrinsics',put('intrinsics',['a']+I[1:]); yield f'{cam}: resolution too short',put('resolution',[640])
            if 'cahvor' not in base[cam]['camera_model']: yield f'{cam}: resolution too long',put('resolution',[640,480,3])
            if base[cam].get('distortion_coeffs'): yield f'{cam}: distortion too short',put('distortion_coeffs',base[cam]['distortion_coeffs'][:-1])
            if 'cahvor' in base[cam]['camera_model']:
                J=list(map(float,I)); J[0]=1.; yield f'{cam}: cahvor(e) not at the origin',put('intrinsics',J)
            T=base[cam]['T_cn_cnm1']
            yield f'{cam}: T 3x4',put('T_cn_cnm1',T[:3]); yield f'{cam}: T 4x3',put('T_cn_cnm1',[r[:3] for r in T]); yield f'{cam}: T flat',put('T_cn_cnm1',sum(T,[]))
            yield f'{cam}: last row of T',put('T_cn_cnm1',T[:3]+[[0.,0.,0.,2.]]); yield f'{cam}: last row of T not 0',put('T_cn_cnm1',T[:3]+[[.1,0.,0.,1.]])
            yield f'{cam}: T not a rotation',put('T_cn_cnm1',[[2*a for a in T[0]]]+T[1:])
            yield f'{cam}: T text',put('T_cn_cnm1',[['a']+T[0][1:]]+T[1:])
        yield 'empty',{}
    for what,x in edits():
        t=yaml.safe_dump(x)
        for opts in ([],['--camera','cam1'],['-'],['--camera','cam0','-']):
            if what.startswith('cam1') and 'cam0' in opts and 0: continue
            with scratch():
                if '-' in opts: rc,so,se=run('mrcal-from-kalibr',opts,t)
                else:
                    open('k.yaml','w').write(t); rc,so,se=run('mrcal-from-kalibr',opts+['k.yaml'])
                n+=1
                if rc==0 or so or [f for f in os.listdir('.') if f!='k.yaml']: bad.append(('kalibr-malformed',f'{lens}: {what}: mrcal-from-kalibr {opts}: status {rc}, files {sorted(os.listdir("."))}: {se[-150:]}'))
    for what,t,opts in (('no such camera',y,['--camera','cam2']),('in-line with --camera',yaml.safe_dump(base['cam0']),['--camera','cam0']),('empty file','',[]),('not yaml','{[',[]),('not yaml','a: b: c',[]),('a list','- 1\n- 2\n',[]),('a string','hello',[])):
        with scratch():
            open('k.yaml','w').write(t); rc,so,se=run('mrcal-from-kalibr',opts+['k.yaml']); n+=1
            if rc==0 or sorted(os.listdir('.'))!=['k.yaml']: bad.append(('kalibr-malformed',f'{what}: status {rc}, files {os.listdir(".")}: {se[-150:]}'))
    return n,bad
def kalibr_unsupported(lens):
    import domain
    m=model(lens,domain.intrinsics(lens,1))
    with scratch():
        m.write('a.cameramodel'); rc,so,se=run('mrcal-to-kalibr',['a.cameramodel'])
        return 1,[] if rc and not so else [('kalibr-unsupported',f'mrcal-to-kalibr of {lens}: status {rc}')]

# ---------------------------------------------------------------- ros
def ros_text(form,M,D,R,P,size,name):
    f=lambda x:'['+', '.join(repr(float(v)) for v in np.ravel(x))+']'
    if form=='info':
        t=f'header:\n  seq: 1\nheight: {size[1]}\nwidth: {size[0]}\ndistortion_model: "{name}"\nD: {f(D)}\nK: {f(M)}\n'
        if R is not None: t+=f'R: {f(R)}\n'
        return t+f'P: {f(P)}\nbinning_x: 0\n'
    d=dict(image_width=size[0],image_height=size[1],camera_name='prosilica',distortion_model=name)
    def arr(x,r,c): return dict(rows=r,cols=c,data=[float(v) for v in np.ravel(x)])
    d['camera_matrix']=arr(M,3,3); d['distortion_coefficients']=arr(D,1,len(D)); d['projection_matrix']=arr(P,3,4)
    if R is not None: d['rectification_matrix']=arr(R,3,3)
    if form=='json': return json.dumps(d)
    t=''
    for k,v in d.items():
        t+=f'{k}: {v}\n' if not isinstance(v,dict) else f'{k}:\n  rows: {v["rows"]}\n  cols: {v["cols"]}\n  data: {f(v["data"])}\n'
    return t
def ros(it):
    import mrcal,ref
    form,name,D,r,tx,fP,core,size,tools=it; n=0; bad=[]
    fx,fy,cx,cy=core; M=np.array(((fx,0,cx),(0,fy,cy),(0,0,1.)))
    R=None if r is None else np.zeros((3,3)) if r==0 else np.array(ref.R_from_r(np.array(r)),float)
    P=np.zeros((3,4)) if fP==0 else np.array(((fP,0,cx,tx*fP),(0,fP,cy,0),(0,0,1.,0)))
    t=ros_text(form,M,D,R,P,size,name)
    Rr=np.eye(3) if r is None or r==0 else R
    # p_ref = R p_cam - t, t=P[:,3]/fx
    tt=np.array((tx if fP else 0,0,0)); Rc=Rr.T; tc=Rr.T@tt
    def check(m,what):
        l,k=m.intrinsics()
        if l!=dict(plumb_bob='LENSMODEL_OPENCV5',rational_polynomial='LENSMODEL_OPENCV8')[name] or not np.array_equal(k,np.r_[core,D]) or tuple(m.imagersize())!=tuple(size): bad.append(('ros',f'{form} {what}: lens {l} {k.tolist()} {m.imagersize()}; expected {name} {core} {D} {size}')); return
        rt=m.rt_cam_ref()
        dR=abs(ref.R_from_r(rt[:3])-Rc).max(); dt=abs(rt[3:]-tc).max()
        if not (dR<1e-7 and dt<1e-7): bad.append(('ros-pose-'+form,f'{form} {what}: R={None if R is None else np.round(R,4).tolist()}, P[0,3]/fx={tx if fP else 0}: pose {rt.tolist()}; expected R={Rc.tolist()} t={tc.tolist()}'))
    with scratch():
        ext='json' if form=='json' else 'yaml'; f='c.'+ext
        open(f,'w').write(t)
        try: m=mrcal.cameramodel(f)
        except Exception as e: return 1,[('ros-read',f'{form} {name}: {e}')]
        n+=1; check(m,'cameramodel(file)')
        if tools:
            os.mkdir('o'); rc,so,se=run('mrcal-from-ros',['--outdir','o',f]); n+=1
            if rc: bad.append(('ros-tool',se[-200:]))
            else: check(mrcal.cameramodel('o/c.cameramodel'),'mrcal-from-ros')
            rc,so,se=run('mrcal-from-ros',['-'],t); n+=1
            if rc: bad.append(('ros-tool',se[-200:]))
            else: open('s.cameramodel','w').write(so); check(mrcal.cameramodel('s.cameramodel'),'mrcal-from-ros -')
    return n,bad
def ros_malformed(form):
    import ref,mrcal
    M=np.array(((600.,0,320),(0,610,240),(0,0,1.))); P=np.array(((600.,0,320,60),(0,600,240,0),(0,0,1.,0))); R=np.array(ref.R_from_r(np.array((.1,.2,.3))),float); D=[.1,.01,.001,-.001,0.]
    bad=[]; n=0
    def edit(a,i,v): a=np.array(a,float); a[i]=v; return a
    T=[(f'M[{i}]',(edit(M,i,7.),D,R,P,(640,480),'plumb_bob')) for i in ((0,1),(1,0),(2,0),(2,1),(2,2))]
    T+=[(f'P[{i}]',(M,D,R,edit(P,i,7.),(640,480),'plumb_bob')) for i in ((1,3),(2,3))]
    T+=[('R not a rotation',(M,D,2*R,P,(640,480),'plumb_bob')),('R 2x3',(M,D,R[:2],P,(640,480),'plumb_bob')),('M 2x3',(M[:2],D,R,P,(640,480),'plumb_bob')),('P 3x3',(M,D,R,P[:,:3],(640,480),'plumb_bob')),
        ('D of 4',(M,D[:4],R,P,(640,480),'plumb_bob')),('D of 8 in plumb_bob',(M,D+[0,0,0.],R,P,(640,480),'plumb_bob')),('D of 5 in rational_polynomial',(M,D,R,P,(640,480),'rational_polynomial')),('unknown lens',(M,D,R,P,(640,480),'zzz')),('equidistant',(M,D,R,P,(640,480),'equidistant'))]
    T=[(w,ros_text(form,*a)) for w,a in T]
    if form!='json':
        good=ros_text(form,M,D,R,P,(640,480),'plumb_bob')
        import yaml
        d=yaml.safe_load(good)
        for k in d:
            if k in('header','camera_name','binning_x','R','rectification_matrix'): continue
            x=dict(d); del x[k]; T.append((f'no {k}',yaml.safe_dump(x)))
            if not isinstance(d[k],dict): x=dict(d); x[k]='zz'; T.append((f'text in {k}',yaml.safe_dump(x)))
            else: x=dict(d); x[k]=dict(d[k],data=['a']+d[k]['data'][1:]); T.append((f'text in {k}',yaml.safe_dump(x)))
        x=dict(d); x['K' if form=='yaml' else 'camera_matrix']=np.ravel(M).tolist(); T.append(('two camera matrices',yaml.safe_dump(x)))
    for what,t in T:
        with scratch():
            open('a.yaml','w').write(t); n+=1
            try: m=mrcal.cameramodel('a.yaml'); bad.append(('ros-malformed',f'{form}: {what}: accepted as {m.intrinsics()} {m.rt_cam_ref()}'))
            except Exception: pass
            rc,so,se=run('mrcal-from-ros',['a.yaml'])
            if rc==0 or sorted(os.listdir('.'))!=['a.yaml']: bad.append(('ros-malformed',f'{form}: {what}: mrcal-from-ros status {rc}, files {os.listdir(".")}'))
    return n,bad

# ---------------------------------------------------------------- which files are written
# kinds of input
KINDS=('good','exists','already','broken','missing')
def files(it):
    """lists of inputs x options: what appears or changes"""
    import mrcal
    tool,kinds,force,outdir,clean=it
    m=model('LENSMODEL_OPENCV4',(600.,610.,320.,240.,-.2,.1,.001,-.002),POSES[1]); ext_in,ext_out={'mrcal-to-cahvor':('.cameramodel','.cahvor'),'mrcal-from-cahvor':('.cahvor','.cameramodel'),'mrcal-from-ros':('.yaml','.cameramodel')}[tool]
    bad=[]
    with scratch():
        names=[]; expect={}; os.mkdir('out'); ok=True; reach=True
        for i,k in enumerate(kinds):
            f=f'm{i}'+('.x' if i==1 else '')
            src=f+(ext_out if k=='already' else ext_in)
            if k=='broken': open(src,'w').write('zzz')
            elif k!='missing':
                if src.endswith('.yaml'): m.write(src)
                else: m.write(src)
            names.append(src)
            o=(('out/' if outdir else '')+f+ext_out)
            if k=='exists': open(o,'w').write('precious')
            if k in('broken','missing'): ok=reach=False
            elif k!='already' and reach: expect[o]='new' if (k=='good' or force) else 'precious'
            elif k=='exists': expect[o]=None     # after an error: either
        before=slurp()
        args=(['--force'] if force==1 else ['-f'] if force==2 else [])+(['--outdir','out'] if outdir else [])+names
        rc,so,se=run(tool,args); after=slurp()
        d=f'{tool} {" ".join(args)} (inputs: {kinds}): '
        if ok and rc: bad.append(('files-status',d+f'status {rc}: {se[-200:]}'))
        if not ok and rc==0: bad.append(('files-status',d+'status 0 though an input is missing or unreadable'))
        for f,t in before.items():
            if f not in expect and after.get(f)!=t: bad.append(('files-damaged',d+f'{f} changed or vanished'))
        for f,w in expect.items():
            t=after.get(f)
            if w=='precious' and t!='precious': bad.append(('files-overwritten',d+f'{f} existed and was overwritten without --force'))
            if w=='new':
                try: good=t is not None and t!='precious' and judge(m,mrcal.cameramodel(f),1e-7,10 if 'ros' in tool else 1e-8,None,f) is None
                except Exception: good=False
                # ros files hold the lens with 5 distortions
                if 'ros' in tool and t is not None and t!='precious': good=mrcal.cameramodel(f).intrinsics()[0]=='LENSMODEL_OPENCV5'
                if not good: bad.append(('files-not-written',d+f'{f} is not the converted model'))
        extra=[f for f in after if f not in before and f not in expect]
        # inputs after a broken one may or may not be processed; but nothing may come from a broken input
        for f in extra:
            i=int(os.path.basename(f)[1])
            if kinds[i] in('broken','missing','already') or not f.endswith(ext_out): bad.append(('files-extra',d+f'{f} appeared'))
    return 1,bad
def files_kalibr(it):
    import mrcal
    exist,force,outdir,cam=it; bad=[]
    M=[model('LENSMODEL_PINHOLE',(600.+i,610.,320.,240.),POSES[i]) for i in range(3)]
    with scratch():
        os.mkdir('out')
        for i in range(3): M[i].write(f'{i}.cameramodel')
        rc,y,se=run('mrcal-to-kalibr',[f'{i}.cameramodel' for i in range(3)]); open('k.yaml','w').write(y)
        o=[('out/' if outdir else '')+f'k-cam{i}.cameramodel' for i in range(3)]
        for i in range(3):
            if exist>>i&1: open(o[i],'w').write('precious')
        b=slurp(); args=(['-f'] if force else [])+(['--outdir','out'] if outdir else [])+(['--camera',f'cam{cam}'] if cam is not None else [])+['k.yaml']
        rc,so,se=run('mrcal-from-kalibr',args); a=slurp()
        d=f'mrcal-from-kalibr {" ".join(args)} ({exist:03b} exist): '
        if rc: bad.append(('files-status',d+f'status {rc}: {se[-200:]}'))
        for f in set(a)|set(b):
            i=o.index(f) if f in o else None
            if i is None or (cam is not None and cam!=i):
                if a.get(f)!=b.get(f): bad.append(('files-damaged',d+f'{f} changed'))
            elif exist>>i&1 and not force:
                if a.get(f)!='precious': bad.append(('files-overwritten',d+f'{f} was overwritten'))
            else:
                try: e=judge(M[i],mrcal.cameramodel(f),1e-12,1e-9,None,f)
                except Exception as x: e=str(x)
                if e: bad.append(('files-not-written',d+e))
    return 1,bad

# ---------------------------------------------------------------- graft
def graft(it):
    import mrcal,ref
    a,b,stdin=it; bad=[]
    A=model(*a); B=model(*b)
    with scratch():
        A.write('a.cameramodel'); B.write('b.cameramodel'); s=slurp()
        args=['a.cameramodel','b.cameramodel']
        if stdin is not None: args[stdin]='-'
        rc,so,se=run('mrcal-graft-models',args,'' if stdin is None else s['ab'[stdin]+'.cameramodel'])
        if rc: return 1,[('graft-tool',se[-300:])]
        if slurp()!=s: bad.append(('graft-files','an input changed'))
        open('o.cameramodel','w').write(so); O=mrcal.cameramodel('o.cameramodel')
        A.rt_cam_ref(B.rt_cam_ref())
        e=judge(A,O,9e-10,1e-9,1e-9,f'graft of {a[0]} onto {b[0]}')
        if e: bad.append(('graft',e))
    return 1,bad
def graft_fit(it):
    """same lens, yawed: (a pinhole sees a small yaw as a shift of the center.) The fit has to bring world points to where the old model had them"""
    import mrcal,ref
    lens,k,shift,pose,poseA,opts=it; bad=[]
    kB=np.array(k,float); kA=np.array(k,float); kA[2:4]+=np.array(shift)
    A=model(lens,kA,poseA); B=model(lens,kB,pose)
    with scratch():
        A.write('a.cameramodel'); B.write('b.cameramodel')
        rc,so,se=run('mrcal-graft-models',['--gridn','15','12','--no-uncertainties']+list(opts)+['a.cameramodel','b.cameramodel'])
        if rc: return 1,[('graft-tool',f'{opts}: {se[-300:]}')]
        open('o.cameramodel','w').write(so); O=mrcal.cameramodel('o.cameramodel')
        if not np.array_equal(O.intrinsics()[1],kA): bad.append(('graft-fit','the intrinsics changed'))
        # points that B sees around its center
        v=np.array([(x,y,1.) for x in (-.06,0,.07) for y in (-.05,.02,.05)])*100.
        pr=ref.transform(ref.rt_invert(B.rt_cam_ref()),v)
        qB=ref.project(lens,kB,v)
        qO=ref.project(lens,kA,ref.transform(O.rt_cam_ref(),pr)); e=np.sqrt(((qO-qB)**2).sum(-1)).max(); d=np.sqrt((np.array(shift)**2).sum())
        if not e<.05*d+1e-3: bad.append(('graft-fit',f'{lens}: centers differ by {shift}, poses {pose},{poseA}, {opts}: after grafting the projections differ by {e:.3f} pixels'))
    return 1,bad

# ---------------------------------------------------------------- reproject-points
def reproject(it):
    import mrcal,ref
    a,b,pts,only,form=it; bad=[]
    A=model(*a); B=model(*b)
    with scratch():
        A.write('a.cameramodel'); B.write('b.cameramodel')
        q=np.array(pts,float).reshape(-1,2)
        t={'plain':'','legend':'# x y\n','comments':'## a comment\n#x y\n'}[form]
        for i,p in enumerate(q): t+=f'{p[0]!r} {p[1]!r}\n'+('# note\n\n' if form=='comments' and i==0 else '')
        rc,so,se=run('mrcal-reproject-points',(['--intrinsics-only'] if only else [])+['a.cameramodel','b.cameramodel'],t)
        if rc: return 1,[('reproject-tool',se[-300:])]
        L=[l for l in so.split('\n') if l and not l.startswith('#')]
        if '# x y' not in so.split('\n'): bad.append(('reproject-legend','no legend'))
        try: got=np.array([[float(x) for x in l.split()] for l in L]).reshape(-1,2)
        except Exception: return 1,[('reproject',f'unparseable output {so[:200]}')]
        if got.shape!=q.shape: return 1,[('reproject',f'{len(q)} points in, {len(got)} out')]
        v=mrcal.unproject(q,*A.intrinsics())
        # believed only if the reference agrees
        l,k=A.intrinsics(); 
        if abs(ref.project(l,k,v)-q).max()>1e-6: return 1,[]
        if not only:
            R=ref.R_from_r(B.rt_cam_ref()[:3])@ref.R_from_r(A.rt_cam_ref()[:3]).T; v=v@R.T
        want=ref.project(*B.intrinsics(),v)
        ok=(v[:,2]>1e-3) if 'STEREO' not in b[0] else np.ones(len(v),bool)
        if ok.any() and abs(got-want)[ok].max()>2e-6*(1+abs(want[ok]).max()): bad.append(('reproject',f'{a[0]} to {b[0]}, intrinsics only: {only}: {q.tolist()}: {got.tolist()} instead of {want.tolist()}'))
        if np.any(np.array(a[2])[3:]!=np.array(b[2])[3:]) is None: pass
    return 1,bad

# ---------------------------------------------------------------- corners
LEG='# filename x y level\n'
def rows(imgs,N):
    o=[]
    for j,f in enumerate(imgs):
        for i in range(N): o.append((f,f'{100*j+i}.25',f'{i}.5',str(i%3)))
    return o
def rotate(it):
    N,imgs,opts,default,dashes=it; bad=[]; n=N*N
    R=rows(imgs,n)
    if dashes: R=[r if r[0] not in dashes else None for r in R]; R=[r for r in R if r]+[(f,'-','-','-') for f in dashes]; R.sort(key=lambda r:imgs.index(r[0]))
    t='## comment\n'+LEG+''.join(' '.join(r)+'\n' for r in R)
    args=([] if default else ['--gridn',str(N)])+[x for o in opts for x in (f'--{o[0]}',o[1])]
    rc,so,se=run('mrcal-rotate-corners',args,t)
    d=f'mrcal-rotate-corners {" ".join(args)}: '
    if rc: return 1,[('rotate-status',d+f'status {rc} {se[-200:]}')]
    import re
    def rot(f):
        for a in ('90','270','180'):
            if any(o[0]==a and re.search(o[1],f) for o in opts): return a
        return '0'
    want={}
    for f in imgs:
        x=[r for r in R if r[0]==f]
        if f in dashes: want[f]=x; continue
        # corner (row y, column x) of the detection goes to row N-1-x, column y of the board, for 90 degrees
        g=[[None]*N for _ in range(N)]
        for i,r in enumerate(x):
            iy,ix=divmod(i,N); a=rot(f)
            jy,jx={'0':(iy,ix),'90':(N-1-ix,iy),'180':(N-1-iy,N-1-ix),'270':(ix,N-1-iy)}[a]; g[jy][jx]=r
        want[f]=sum(g,[])
    got=[tuple(l.split()) for l in so.split('\n') if l and not l.startswith('#')]
    leg=[l for l in so.split('\n') if l.startswith('#') and not l.startswith('##')]
    if [l.replace('#','').split() for l in leg]!=[['filename','x','y','level']]: bad.append(('rotate-legend',d+f'legend {leg}'))
    gf={}
    for r in got: gf.setdefault(r[0],[]).append(r)
    if sorted(gf)!=sorted(want) or any(gf[f]!=want[f] for f in want): bad.append(('rotate',d+f'images {imgs}: wrong corners, first difference in {[f for f in want if gf.get(f)!=want[f]][:1]}'))
    return 1,bad
def rotate_bad(it):
    N,counts,what=it
    t=LEG+''.join(' '.join(r)+'\n' for j,c in enumerate(counts) for r in rows([f'cam{j}.jpg'],c))
    rc,so,se=run('mrcal-rotate-corners',['--gridn',str(N)],t)
    good=all(c in(1,N*N) for c in counts)
    return 1,[] if (rc==0)==good else [('rotate-count',f'--gridn {N}, images with {counts} corners: status {rc}')]
def cull(it):
    W,H,imgs,drop,opts,filt=it; bad=[]
    R=[]
    for j,f in enumerate(imgs):
        for i in range(W*H):
            k=(j,i)
            if (j,i) in drop: R.append((f,'-','-','-') if drop[(j,i)]=='xy' else (f,str(10.*(i%W)+j),str(10.*(i//W)-j*.5),'-'))
            else: R.append((f,str(10.*(i%W)+j),str(10.*(i//W)-j*.5),str(i%2)))
    t='## comment\n\n'+LEG+''.join(' '.join(r)+'\n'+('# in between\n' if i==1 else '') for i,r in enumerate(R))
    args=list(opts)+[x for f in filt for x in('--filename',f)]
    rc,so,se=run('mrcal-cull-corners',args,t); d=f'mrcal-cull-corners {" ".join(args)}: board {W}x{H}, images {imgs}, dropped {drop}: '
    if rc: return 1,[('cull-status',d+f'status {rc} {se[-200:]}')]
    o={opts[i][2:]:opts[i+1] for i in range(0,len(opts)) if opts[i].startswith('--')}
    import re
    def culled(f,i,x,y):
        if filt and not any(re.search(p,f) for p in filt): return False
        if 'cull-left-of' in o: return x<float(o['cull-left-of'])
        if 'cull-rad-off-center-board' in o:
            r=float(o['cull-rad-off-center-board']); return (i%W-(W-1)/2)**2+(i//W-(H-1)/2)**2>r*r
        r=float(o['cull-rad-off-center'])
        E=lambda d: None if abs(d-r)<1e-9 else d>r
        if 'where' in o: k=opts.index('--where'); c=float(opts[k+1]),float(opts[k+2])
        else: k=opts.index('--imagersize'); s=float(opts[k+1]),float(opts[k+2]); c=(s[0]-1)/2,(s[1]-1)/2
        if r<0: r+=np.hypot(*s)/2
        return E(np.hypot(x-c[0],y-c[1]))
    want=[]
    for j,f in enumerate(imgs):
        for i in range(W*H):
            r=R[j*W*H+i]
            k=r[1]!='-' and culled(f,i,float(r[1]),float(r[2]))
            want.append((r,r[:3]+('-',)) if k is None else (r[:3]+('-',),) if k else (r,))
    got=[tuple(l.split()) for l in so.split('\n') if l and not l.startswith('#')]
    if so.count(LEG)!=1: bad.append(('cull-legend',d+'legend'))
    if len(got)!=len(want) or any(g not in x for g,x in zip(got,want)):
        w=[(g,x) for g,x in zip(got,want) if g not in x][:2]; bad.append(('cull-'+[k for k in o if k.startswith('cull')][0],d+f'{w} (got, expected)'))
    return 1,bad
CULL_BAD=[([],LEG),(['--cull-left-of','3','--cull-rad-off-center','3','--imagersize','10','10'],LEG),(['--cull-rad-off-center','3'],LEG),(['--cull-rad-off-center','-3','--where','1','2'],LEG),
          (['--cull-rad-off-center-board','3'],LEG),(['--cull-rad-off-center-board','0'],LEG+'a 1 2 0\n'),(['--cull-random-observations-ratio','0.5'],LEG),(['--cull-random-observations-ratio','0'],LEG),
          (['--cull-random-observations-ratio','0.5','--object-width-n','2','--filename','a'],LEG),(['--cull-random-observations-ratio','0','--object-width-n','2','--filename','a'],LEG),
          (['--cull-left-of','3'],'# filename x y\na 1 2\n'),(['--cull-left-of','3'],'# x y filename level\n')]
def cull_bad(it):
    a,t=it; rc,so,se=run('mrcal-cull-corners',a,t)
    return 1,[] if rc else [('cull-bad-arguments',f'mrcal-cull-corners {a} {t!r}: status 0')]
def cull_random(it):
    N,W,H,ratio=it; bad=[]
    R=rows([f'img{j}' for j in range(N)],W*H); t=LEG+''.join(' '.join(r)+'\n' for r in R)
    rc,so,se=run('mrcal-cull-corners',['--object-width-n',str(W),'--object-height-n',str(H),'--cull-random-observations-ratio',str(ratio)],t)
    if rc: return 1,[('cull-random',f'ratio {ratio} of {N}: status {rc} {se[-300:]}')]
    got=[l.split() for l in so.split('\n') if l and not l.startswith('#')]; imgs=[]
    for r in got:
        if r[0] not in imgs: imgs.append(r[0])
    keep=int(round((1-ratio)*N)); d=f'ratio {ratio} of {N} {W}x{H} boards: '
    if len(imgs)!=keep: return 1,[('cull-random',d+f'{len(imgs)} boards are left; expected {keep}')]
    for f in imgs:
        g=[(float(r[1]),float(r[2])) for r in got if r[0]==f]; w=[(float(r[1]),float(r[2])) for r in R if r[0]==f]
        if [r[3] for r in got if r[0]==f]!=[r[3] for r in R if r[0]==f]: return 1,[('cull-random-level',d+f'the levels of {f} are {[r[3] for r in got if r[0]==f][:8]} instead of {[r[3] for r in R if r[0]==f][:8]}')]
        if g!=w: return 1,[('cull-random',d+f'the corners of {f} are {g[:6]} instead of {w[:6]}')]
    return 1,[]
# ---------------------------------------------------------------- inside
def inside(it):
    region,pts,cols,order,extra,colout=it; bad=[]
    from fractions import Fraction as F
    m=model('LENSMODEL_PINHOLE',(600.,600.,320.,240.),region=np.array(region,float).reshape(-1,2))
    with scratch():
        m.write('a.cameramodel')
        names={'x':cols[0],'y':cols[1],'e':'extra'}
        L='# '+' '.join(names[o] for o in order)+'\n'
        t=L
        for i,(x,y) in enumerate(pts):
            v={'x':repr(x),'y':repr(y),'e':f'v{i}'}; t+=' '.join(v[o] for o in order)+'\n'
            if extra and i==0: t+='# comment\n'
        rc,so,se=run('mrcal-is-within-valid-intrinsics-region',['--cols-xy',*cols]+(['--col-output',colout] if colout else [])+['a.cameramodel'],t)
        if rc: return 1,[('inside-tool',f'status {rc} {se[-300:]}')]
        leg=[l for l in so.split('\n') if l.startswith('#') and not l.startswith('##')]
        rowsg=[l.split() for l in so.split('\n') if l and not l.startswith('#')]
        P=[(F(a).limit_denominator(10**9),F(b).limit_denominator(10**9)) for a,b in region]
        def isin(x,y):
            c=False; x,y=F(x),F(y)
            for (x0,y0),(x1,y1) in zip(P,P[1:]):
                if (y0>y)!=(y1>y) and x<(x1-x0)*(y-y0)/(y1-y0)+x0: c=not c
            return c
        want=[]
        for i,(x,y) in enumerate(pts):
            v={'x':repr(x),'y':repr(y),'e':f'v{i}'}; want.append([v[o] for o in order]+[str(int(isin(x,y)))])
        d=f'region {region}, columns {order}, {len(pts)} points: '
        if not leg or leg[0].replace('#','').split()!=[names[o] for o in order]+[colout or 'is-within-valid-intrinsics-region']: bad.append(('inside-legend',d+f'legend {leg}'))
        if rowsg!=want: bad.append(('inside',d+f'got {rowsg[:4]}, expected {want[:4]} {se[-200:]}'))
    return 1,bad
# ---------------------------------------------------------------- lens conversions
def lensconv(it):
    import mrcal,ref
    src,k,dst,opts=it; bad=[]
    m=model(src,k,POSES[1])
    with scratch():
        m.write('a.b.cameramodel'); os.mkdir('o')
        rc,so,se=run('mrcal-convert-lensmodel',['--sampled','--gridn','12','10','--outdir','o']+list(opts)+[dst,'a.b.cameramodel'])
        d=f'{src} to {dst} {opts}: '
        if rc or os.listdir('o')!=[f'a.b-{dst}.cameramodel']: return 1,[('lens-tool',d+f'status {rc}, files {os.listdir("o")}: {se[-300:]}')]
        O=mrcal.cameramodel('o/'+os.listdir('o')[0]); l,kk=O.intrinsics()
        if l!=dst or tuple(O.imagersize())!=tuple(m.imagersize()): bad.append(('lens',d+f'wrote {l} {O.imagersize()}'))
        q=np.array([(x,y) for x in np.linspace(60,580,6) for y in np.linspace(50,430,5)])
        v=mrcal.unproject(q,src,np.array(k,float)); only='--intrinsics-only' in opts
        if only:
            e=abs(ref.project(dst,kk,v)-q).max()
            dR,dt=pose_diff(O.rt_cam_ref(),m.rt_cam_ref())
            if dR>1e-9 or dt>1e-9: bad.append(('lens-pose',d+'the pose changed'))
        else:
            p=ref.transform(ref.rt_invert(m.rt_cam_ref()),v*100/np.sqrt((v*v).sum(-1))[:,None]); e=abs(ref.project(dst,kk,ref.transform(O.rt_cam_ref(),p))-q).max()
        if not e<.02: bad.append(('lens',d+f'a world point moved by {e:.3f} pixels'))
    return 1,bad
def lensfiles(it):
    """what is written, and over what"""
    import mrcal
    exists,force,outdir,dst,stdin=it; bad=[]
    m=model('LENSMODEL_PINHOLE',(600.,610.,320.,240.),POSES[1])
    with scratch():
        m.write('a.cameramodel'); os.mkdir('o'); o=('o/' if outdir else '')+f'a-{dst}.cameramodel'
        if exists: open(o,'w').write('precious')
        b=slurp()
        args=['--sampled','--intrinsics-only','--gridn','5','4']+(['-f'] if force else [])+(['--outdir','o'] if outdir else [])
        rc,so,se=run('mrcal-convert-lensmodel',args+[dst,'-' if stdin else 'a.cameramodel'],b['a.cameramodel'] if stdin else ''); a=slurp()
        d=f'mrcal-convert-lensmodel {" ".join(args)} {dst} {"-" if stdin else "a.cameramodel"}, output exists: {exists}: '
        same=dst=='LENSMODEL_PINHOLE'; valid=dst in('LENSMODEL_OPENCV4','LENSMODEL_PINHOLE')
        if not valid or same or stdin or (exists and not force):
            if a!=b: bad.append(('lens-overwritten',d+f'changed {[f for f in set(a)|set(b) if a.get(f)!=b.get(f)]}'))
            if not valid and rc==0: bad.append(('lens-status',d+'status 0'))
            if exists and not force and not stdin and valid and not same and rc==0: bad.append(('lens-status',d+'status 0'))
            if stdin and valid and not same:
                open('s.cameramodel','w').write(so)
                try: e=mrcal.cameramodel('s.cameramodel').intrinsics()[0]!=dst
                except Exception as x: e=x
                if e: bad.append(('lens-stdout',d+f'standard output is not the model: {se[-200:]}'))
        else:
            x={f for f in set(a)|set(b) if a.get(f)!=b.get(f)}
            try: good=x=={o} and mrcal.cameramodel(o).intrinsics()[0]==dst
            except Exception: good=False
            if rc or not good: bad.append(('lens-not-written',d+f'status {rc}, changed {x} {se[-200:]}'))
    return 1,bad
# ---------------------------------------------------------------- report-fov
def fov(it):
    import mrcal,ref,re
    ms,stdin=it; bad=[]
    with scratch():
        M=[model(*x) for x in ms]; names=[f'{i}.cameramodel' for i in range(len(M))]
        for f,m in zip(names,M): m.write(f)
        rc,so,se=run('mrcal-report-fov',['-'] if stdin else names,open(names[0]).read() if stdin else '')
        if rc: return 1,[('fov-tool',f'{[x[0] for x in ms]} status {rc} {se[-300:]}')]
        blocks=so.split('==========\n')[1:] if len(M)>1 else [so]
        for m,b in zip(M,blocks):
            W,H=m.imagersize(); l,k=m.intrinsics(); cx,cy=k[:2]*0+k[2:4] if mrcal.lensmodel_metadata_and_config(l)['has_core'] else ((W-1)/2,(H-1)/2)
            def th(q):
                v=mrcal.unproject(np.array(q,float),l,k); v=v[np.isfinite(v).all(-1)]
                return np.degrees(np.arctan2(np.hypot(v[:,0],v[:,1]),v[:,2]))
            for what,q in (('vertically',((cx,0),(cx,H-1))),('horizontally',((0,cy),(W-1,cy))),('corner-corner',((0,0),(0,H-1),(W-1,0),(W-1,H-1)))):
                t=th(q); g=re.search(rf'Mean FOV {what}: *(\S+?)(?:degrees)?$',b,re.M)
                g=g.group(1) if g else None
                if t.size: good=g is not None and g!='undefined' and abs(float(g)-2*t.mean())<=.0051
                else: good=g=='undefined'
                if not good: bad.append(('fov',f'{l} {k.tolist()} {W}x{H} {what}: reported {g}; expected {2*t.mean() if t.size else None}'))
    return 1,bad

def go(it):
    warnings.simplefilter('ignore')
    return globals()[it[0]](it[1])
def main(c,b):
    global BDIR
    sys.path.insert(0,b); BDIR=b
    import mrcal,mrcal.cahvor,yaml,domain,ref,probs,scipy.optimize
    warnings.simplefilter('ignore')
    tmp=tempfile.mkdtemp(prefix='vf_p28_'); os.environ['TMPDIR']=tmp; tempfile.tempdir=tmp
    np.seterr(all='ignore')
    L=lenses(); I=[]
    # every lens x pose x region; sizes and tools rotate
    i=0
    for l,k,_ in L:
        for ip,p in enumerate(POSES):
            for ir,r in enumerate(REGIONS):
                i+=1
                for z in (SIZES if THOROUGH else [SIZES[i%3]]): I.append(('cahvor',(l,k,p,r,z,THOROUGH or (ip+ir+i//24)%6==0)))
    UNS=[m for m in domain.ALL if not any(x in m for x in('CAHVOR','PINHOLE','OPENCV'))]
    I+=[('cahvor_bad',(l,e)) for l in UNS for e in (0,1)]
    one={}
    for l,k,_ in L: one.setdefault(l.split('=')[0],(l,k))
    I+=[('cahvor_malformed',x) for x in one.values()]
    KL=[x for x in L if any(s in x[0] for s in('PINHOLE','OPENCV4','CAHVOR'))]
    for l,k,_ in KL:
        for p in (POSES if THOROUGH else POSES[1:5:2]): I.append(('kalibr',([(l,k,p)],0,0)))
    kk=[next(x for x in KL if x[0].startswith('LENSMODEL_'+s)) for s in('PINHOLE','OPENCV4','CAHVOR','CAHVORE_')]
    for n in (1,2,3):
        for ps in itertools.product(range(len(POSES)),repeat=n):
            if n==3 and not THOROUGH and sum(ps)%5: continue
            for w,r in itertools.product((0,1),(0,1)):
                if n==3 and w and r and not THOROUGH: continue
                I.append(('kalibr',([(kk[(j+sum(ps))%4][0],kk[(j+sum(ps))%4][1],POSES[q]) for j,q in enumerate(ps)],w,r)))
    I+=[('kalibr_malformed',(x[0],x[1])) for x in kk]
    I+=[('kalibr_unsupported',l) for l in UNS+['LENSMODEL_OPENCV5','LENSMODEL_OPENCV8','LENSMODEL_OPENCV12']]
    D5=[(-.2,.1,.001,-.002,.05),(0,0,0,0,0.),(1e-5,0,0,0,-1e-5)]; D8=[(-.2,.1,.001,-.002,.05,.1,-.1,.02)]
    i=0
    for form in ('yaml','info','json'):
        for name,DD in (('plumb_bob',D5),('rational_polynomial',D8)):
            for D in DD:
                for r in (None,0,(0,0,0),(.01,-.02,.005),(0,0,1.5),(1.,-2.,.3),(1e-5,0,0)):
                    for tx in (0,-.5,.125):
                        for fP in (600.,80.,0):
                            i+=1
                            I.append(('ros',(form,name,D,r,tx,fP,[(600.,610.,320.,240.),(1234.5,1180.,-12.5,1e-5)][i%2],SIZES[i%3],THOROUGH or i%5==0)))
    I+=[('ros_malformed',f) for f in('yaml','info','json')]
    for tool in ('mrcal-to-cahvor','mrcal-from-cahvor','mrcal-from-ros'):
        for n in (1,2,3):
            for ks in itertools.product(KINDS,repeat=n):
                for f in (0,1,2) if n==1 else (0,1):
                    for o in (0,1):
                        if n==3 and not THOROUGH and f!=o: continue
                        I.append(('files',(tool,ks,f,o,0)))
    I+=[('files_kalibr',x) for x in itertools.product(range(8),(0,1),(0,1),(None,0,1,2))]
    G=[(x[0],x[1]) for x in one.values()]+[(l,tuple(domain.intrinsics(l,1))) for l in UNS[::3]]
    for i,a in enumerate(G):
        for j,bb in enumerate(G):
            I.append(('graft',((a[0],a[1],POSES[i%6],REGIONS[i%4]),(bb[0],bb[1],POSES[(j+1)%6],REGIONS[j%4]),(None,0,1)[(i+j)%3])))
    for l,k in (('LENSMODEL_PINHOLE',(2000.,2000.,320.,240.)),('LENSMODEL_STEREOGRAPHIC',(2000.,2000.,320.,240.)),('LENSMODEL_OPENCV4',(2000.,2000.,320.,240.,-.01,.01,0,0))):
        for sh in ((20.,0.),(0.,-30.),(15.,10.)):
            for pa,pb in ((0,1),(1,2),(4,4)):
                for o in (['--radius','150'],['--radius','1000','--distance','100'],['--radius','-1'],['--radius','150','--where','300','250'],['--radius','200','--distance','50,100,200']):
                    I.append(('graft_fit',(l,k,sh,POSES[pa],POSES[pb],o)))
    RP=[('LENSMODEL_PINHOLE',(600.,610.,320.,240.)),('LENSMODEL_OPENCV4',(600.,610.,320.,240.,-.1,.05,.001,-.002)),('LENSMODEL_STEREOGRAPHIC',(500.,510.,300.,250.)),('LENSMODEL_CAHVOR',(600.,610.,320.,240.,.01,-.02,.001,.02,-.01))]
    for a,bb in itertools.product(RP,RP):
        for pa,pb in ((0,0),(0,1),(1,0),(1,5),(2,4)):
            for only in (0,1):
                for pts in (((320,240),),((10,20),),((10,20),(300,200)),((0,0),(639,0),(639,479),(0,479),(320.25,240.75))):
                    for form in ('plain','legend','comments'):
                        if not THOROUGH and (len(pts)+pa+('plain','legend','comments').index(form))%3: continue
                        I.append(('reproject',(a+(POSES[pa],),bb+(POSES[pb],),pts,only,form)))
    im=['f1-camA.jpg','f1-camB.jpg','f2-camA.jpg']
    O=[()]+[((a,r),) for a in ('90','180','270') for r in ('camA','camB','f2','nope','f[12]-camA')]+[(('90','camA'),('180','camB')),(('270','camA'),('90','camB')),(('90','f1-camA'),('90','f2')),(('180','camA'),('270','f2-camB'))]
    for N in (2,3,4,10):
        for o in O:
            for dsh in ((),('f1-camB.jpg',)): 
                if N==10 and len(o)==1 and not THOROUGH and o[0][1]!='camA': continue
                I.append(('rotate',(N,im,o,N==10,dsh)))
    for counts in ((4,),(3,),(1,),(5,),(4,4),(4,3),(3,4),(4,1,4),(1,1),(4,5),(8,),(2,4),(4,4,2)): I.append(('rotate_bad',(2,counts,'')))
    for W,H in ((2,2),(3,2),(2,3),(4,3)):
        imgs=['a1.jpg','b1.jpg']
        ops=[['--cull-left-of',str(v)] for v in (-5,0,10,11,15.5,100)]
        ops+=[['--cull-rad-off-center',str(v),'--where','10','5'] for v in (0,5,9,12,50)]+[['--cull-rad-off-center',str(v),'--imagersize','21','11'] for v in (3,8,-2,-8)]
        ops+=[['--cull-rad-off-center-board',str(v),'--object-width-n',str(W),'--object-height-n',str(H)] for v in (.3,.6,.8,1.05,1.2,3)]
        if W==H: ops+=[['--cull-rad-off-center-board','0.6','--object-width-n',str(W)]]
        # which corners are not there: every set of up to 2
        P=[(j,i) for j in (0,1) for i in range(W*H)]
        sets=[()]+[(p,) for p in P]+(list(itertools.combinations(P,2)) if THOROUGH or (W,H)==(2,2) else [])
        for n,(s,o) in enumerate(itertools.product(sets,ops)):
            for kind in ('xy','level'):
                if not s and kind=='level': continue
                if not THOROUGH and len(s)==2 and 'board' not in o[0]: continue
                if not THOROUGH and len(s)==1 and 'board' not in o[0] and (n+(kind=='xy'))%3: continue
                for filt in ((),('^a',),('b','zz')) if len(s)<1 or (THOROUGH and len(s)==1) else ((),('^b',)) if 'board' in o[0] and len(s)==1 else ((),):
                    I.append(('cull',(W,H,imgs,{p:kind for p in s},o,filt)))
    I+=[('cull_bad',x) for x in CULL_BAD]
    I+=[('cull_random',x) for x in itertools.product((1,2,5),(3,4),(3,4),(0.,.2,.5,1.)) ]
    RG=[((0,0),(10,0),(10,10),(0,10),(0,0)),((0,0),(10,0),(5,9),(0,0)),((0,0),(12,0),(12,12),(6,2),(0,12),(0,0)),()]
    for r in RG:
        for pts in (((5.25,4.75),),((50.,50.),),((5.25,4.75),(50.,50.),(1.5,1.25)),tuple((x+.25,y+.375) for x in range(-1,13,3) for y in range(-1,13,3))):
            for order in ('xy','yx','xye','exy','yex'):
                for e in (0,1):
                    for cols in (('x','y'),('u','x')):
                        for out in (None,'ok'):
                            if not THOROUGH and (len(pts)+len(order)+e+(out is None)+(cols[0]=='u'))%4: continue
                            I.append(('inside',(r,pts,cols,order,e,out)))
    OC=('LENSMODEL_OPENCV4','LENSMODEL_OPENCV5','LENSMODEL_OPENCV8','LENSMODEL_OPENCV12')
    PK=(600.,610.,320.,240.); KX={'LENSMODEL_OPENCV4':(-.1,.03,.001,-.002),'LENSMODEL_OPENCV5':(-.1,.03,.001,-.002,.005)}
    conv=[('LENSMODEL_PINHOLE',PK,d) for d in OC[:3]+('LENSMODEL_CAHVOR','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=8_Ny=6_fov_x_deg=80')]+[(OC[i],PK+KX[OC[i]],OC[j]) for i in (0,1) for j in range(4) if j>i]
    for s,k,d in conv:
        for o in (['--intrinsics-only'],['--distance','100'],['--distance','100,50'],['--intrinsics-only','--where','310','250','--radius','200']):
            if not THOROUGH and (d in OC[2:] or 'SPL' in d) and 'distance' in o[0]: continue
            if 'SPL' in d and 'radius' in ''.join(o): continue
            I.append(('lensconv',(s,k,d,['--radius','-1']*('--radius' not in o)+o)))
    for e,f,o,d,st in itertools.product((0,1),(0,1),(0,1),('LENSMODEL_OPENCV4','LENSMODEL_PINHOLE','LENSMODEL_ZZZ','LENSMODEL_OPENCV4_','LENSMODEL_CAHVORE'),(0,1)): I.append(('lensfiles',(e,f,o,d,st)))
    FM=[(x[0],x[1],POSES[1],None,z) for x in one.values() for z in SIZES[::2]]+[(l,tuple(domain.intrinsics(l,j)),POSES[0],None,SIZES[0]) for l in UNS for j in (0,1,2)]
    I+=[('fov',([m],s)) for m in FM for s in (0,1)]+[('fov',([FM[i],FM[(i*7+3)%len(FM)],FM[(i*5+1)%len(FM)]],0)) for i in range(len(FM))]
    # slow ones first
    slow=('lensconv','kalibr_malformed','cahvor_malformed','ros_malformed','lensfiles')
    I.sort(key=lambda it:(it[0] not in slow,))
    tot=0
    try:
        for it,r in zip(I,vf.pmap(go,I,chunk=4)):
            s=lambda:json.loads(json.dumps(it,default=lambda a:getattr(a,'tolist',lambda:str(a))() if not isinstance(a,dict) else str(a))) if it[0]!='cull' else repr(it)
            if r[0]!='ok': c.violation('died-'+it[0],f'{it[0]}: {r}',dict(item=repr(it))); continue
            n,bad=r[1]; c.count(it[0],n); tot+=n
            for key,what in bad: c.violation(key,what,dict(item=repr(it)))
    finally: shutil.rmtree(tmp,ignore_errors=True)
    c.sample(dict(item=repr(I[0])[:300]))
    return dict(evaluations=tot,distinct_nontrivial=tot-c.counts.get('cull_bad',0),exhaustive=True,rule='every item: the documented result, from the model or table that went in; every refusal leaves the files as they were')
if __name__=='__main__': vf.main(main,'P28','exploration')
