"""Shared infrastructure of the checks: building /repo's working tree in a scratch
directory, enumerating in parallel, reporting violations, writing evidence.

Nothing here samples: every check enumerates a finite space and reports how much of it it
covered."""
import os,sys,json,time,hashlib,subprocess,shutil,fcntl,itertools,traceback,tempfile,signal

VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('VF_REPO','/repo')
BUILD=os.path.join(VERIF,'.build')
SEED=int(os.environ.get('VERIF_SEED','1'))
TIER=os.environ.get('VERIF_TIER','quick')
NPROC=int(os.environ.get('VF_NPROC',str(os.cpu_count() or 8)))

COMPILE_EXTS=('.c','.cc','.h','.hh','.re','.pl','.docstring','.mk')

ENV=dict(OMP_NUM_THREADS='1',OPENBLAS_NUM_THREADS='1',MKL_NUM_THREADS='1',
         PYTHONHASHSEED='0',PYTHONDONTWRITEBYTECODE='1',LC_ALL='C.UTF-8',
         PATH='/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin')

# ------------------------------------------------------------------ build
def _files():
    try:
        r=subprocess.run(['git','-C',REPO,'ls-files','-coz','--exclude-standard'],
                         capture_output=True,check=True)
        names=[n for n in r.stdout.decode().split('\0') if n]
    except Exception:
        names=[]
        for d,ds,fs in os.walk(REPO):
            ds[:]=[x for x in ds if x!='.git']
            for f in fs:
                if f.endswith(('.o','.so','.d')) or 'GENERATED' in f or f.endswith('.docstring.h'): continue
                names.append(os.path.relpath(os.path.join(d,f),REPO))
    return sorted(n for n in names if os.path.isfile(os.path.join(REPO,n)) and not n.startswith(('doc/','analyses/')) )

def _compile_relevant(n):
    return n.endswith(COMPILE_EXTS) or os.path.basename(n).startswith('Makefile') or n.endswith('genpywrap.py')

def tree():
    h={}
    for n in _files():
        with open(os.path.join(REPO,n),'rb') as f: h[n]=hashlib.sha256(f.read()).hexdigest()
    return h

def _digest(d): return hashlib.sha256(json.dumps(d,sort_keys=True).encode()).hexdigest()[:16]

class _Lock:
    def __init__(s,name): 
        os.makedirs(BUILD,exist_ok=True)
        s.f=open(os.path.join(BUILD,name+'.lock'),'w')
    def __enter__(s): fcntl.flock(s.f,fcntl.LOCK_EX); return s
    def __exit__(s,*a): fcntl.flock(s.f,fcntl.LOCK_UN); s.f.close()

def make_env():
    e={k:v for k,v in os.environ.items() if k not in ('MAKEFLAGS','CFLAGS','CXXFLAGS','LDFLAGS','LIBRARY_PATH','LD_LIBRARY_PATH','PYTHONPATH','LD_PRELOAD')}
    e.update(ENV); e['CPATH']='/usr/include/suitesparse'; e['PATH']='/usr/bin:/bin:/usr/sbin:/sbin'
    return e

def _run(cmd,cwd,log):
    with open(log,'ab') as f:
        r=subprocess.run(cmd,cwd=cwd,env=make_env(),stdout=f,stderr=subprocess.STDOUT)
    if r.returncode!=0:
        with open(log,'rb') as f: t=f.read()[-3000:]
        raise BuildError('build failed: %s\n%s'%(cmd,t.decode('utf-8','replace')))

class BuildError(Exception): pass

def _sync(dst,now,old):
    for n in now:
        if old.get(n)!=now[n]:
            p=os.path.join(dst,n); os.makedirs(os.path.dirname(p),exist_ok=True)
            if os.path.lexists(p): os.unlink(p)
            shutil.copyfile(os.path.join(REPO,n),p)
            shutil.copymode(os.path.join(REPO,n),p)
    for n in old:
        if n not in now:
            p=os.path.join(dst,n)
            if os.path.lexists(p): os.unlink(p)

PYEXT=['mrcal/_mrcal','mrcal/_mrcal_npsp','mrcal/_poseutils_npsp','mrcal/_triangulation_npsp']
def build():
    """Returns a directory holding /repo's current working tree, built. Never writes in /repo"""
    now=tree()
    h=_digest(now)
    final=os.path.join(BUILD,'tree-'+h)
    with _Lock('build'):
        if os.path.exists(os.path.join(final,'.vf-done')):
            os.utime(os.path.join(final,'.vf-done'))
            return final
        # the most similar existing tree serves as a starting point
        best,bold=None,{}
        cands=[d for d in os.listdir(BUILD) if d.startswith('tree-') and os.path.exists(os.path.join(BUILD,d,'.vf-done'))]
        score=None
        for d in cands:
            try: old=json.load(open(os.path.join(BUILD,d,'.vf-done')))
            except Exception: continue
            if set(n for n in old if _compile_relevant(n))!=set(n for n in now if _compile_relevant(n)): continue
            ch=[n for n in now if _compile_relevant(n) and old.get(n)!=now[n]]
            if any('Makefile' in n or n.endswith('.mk') for n in ch): continue
            if score is None or len(ch)<score: best,bold,score=d,old,len(ch)
        tmp=final+'.tmp'
        shutil.rmtree(tmp,ignore_errors=True)
        log=os.path.join(BUILD,'log-'+h)
        if best is not None:
            subprocess.run(['cp','-a',os.path.join(BUILD,best),tmp],check=True)
            os.unlink(os.path.join(tmp,'.vf-done'))
        else:
            os.makedirs(tmp)
            score=1
        _sync(tmp,now,bold)
        if score:
            suf=subprocess.run(['python3','-c','import sysconfig;print(sysconfig.get_config_var("EXT_SUFFIX"))'],capture_output=True,text=True,env=make_env()).stdout.strip()
            _run(['make','-j%d'%NPROC,'NM=nm']+[x+suf for x in PYEXT],tmp,log)
        with open(os.path.join(tmp,'.vf-done'),'w') as f: json.dump(now,f)
        os.rename(tmp,final)
        # keep few
        ds=sorted((d for d in os.listdir(BUILD) if d.startswith('tree-') and os.path.exists(os.path.join(BUILD,d,'.vf-done'))),
                  key=lambda d: os.path.getmtime(os.path.join(BUILD,d,'.vf-done')),reverse=True)
        keep=int(os.environ.get('VF_KEEP','12'))
        for d in ds[keep:]: shutil.rmtree(os.path.join(BUILD,d),ignore_errors=True)
    return final

LIBSRC=['mrcal.c','opencv.c','uncertainty.c','image.c','stereo.c','poseutils.c','poseutils-opencv.c',
        'poseutils-uses-autodiff.cc','triangulation.cc','cahvore.cc','traverse-sensor-links.c','heap.cc',
        'cameramodel-parser_GENERATED.c']
LIBS=['-ldogleg','-lstb','-lpng','-ljpeg','-llapack','-lm','-lstdc++']
def cobjects(bdir,flavor,flags,cc='gcc',cxx='g++',sources=None):
    """Compiles the C library sources of the built tree 'bdir' with extra flags. Objects are cached
    by content. Returns the object files"""
    import concurrent.futures as cf
    srcs=sources or LIBSRC
    hdr=hashlib.sha256()
    for d,ds,fs in sorted(os.walk(bdir)):
        rel=os.path.relpath(d,bdir)
        if rel not in ('.','minimath'): continue
        for f in sorted(fs):
            if f.endswith(('.h','.hh')) and not f.endswith('.docstring.h'):
                hdr.update(f.encode()); hdr.update(open(os.path.join(d,f),'rb').read())
    odir=os.path.join(BUILD,'obj'); os.makedirs(odir,exist_ok=True)
    def one(s):
        body=open(os.path.join(bdir,s),'rb').read()
        k=hashlib.sha256(hdr.digest()+body+repr((s,flavor,flags,cc,cxx)).encode()).hexdigest()[:20]
        o=os.path.join(odir,k+'.o')
        if not os.path.exists(o):
            c=[cxx,'-std=gnu++17'] if s.endswith('.cc') else [cc,'-std=gnu11']
            t=o+'.%d.tmp'%os.getpid()+'.o'
            r=subprocess.run(c+['-w','-fPIC','-I'+bdir,'-c',os.path.join(bdir,s),'-o',t]+list(flags),
                             env=make_env(),capture_output=True,text=True)
            if r.returncode!=0: raise BuildError('%s: %s'%(s,r.stderr[-3000:]))
            os.rename(t,o)
        return o
    with cf.ThreadPoolExecutor(NPROC) as ex: return list(ex.map(one,srcs))

def cprogram(bdir,name,csrc,flavor='plain',flags=('-O1','-g'),cc='gcc',cxx='g++',lib=True,shared=False,extra=(),objflags=None,linkflags=(),keep_syms=None):
    """Compiles a harness from /verif against the C library. Returns its path"""
    objs=cobjects(bdir,flavor,tuple(objflags if objflags is not None else flags),cc,cxx) if lib else []
    srcs=[csrc] if isinstance(csrc,str) else list(csrc)
    k=hashlib.sha256()
    for s in srcs: k.update(open(s,'rb').read())
    k.update(repr((name,objs,flags,cc,extra,shared,linkflags,sorted((n,v) for n,v in tree_cached(bdir).items() if n.endswith(('.h','.hh'))))).encode())
    out=os.path.join(BUILD,'bin',name+'-'+k.hexdigest()[:16]+('.so' if shared else ''))
    os.makedirs(os.path.dirname(out),exist_ok=True)
    with _Lock('bin-'+name):
        if not os.path.exists(out):
            hs=[]
            for i,s in enumerate(srcs):
                o=out+'.%d.o'%i
                c=[cxx,'-std=gnu++17'] if s.endswith('.cc') else [cc,'-std=gnu11']
                r=subprocess.run(c+['-w','-fPIC','-I'+bdir]+list(flags)+['-c',s,'-o',o],env=make_env(),capture_output=True,text=True)
                if r.returncode!=0: raise BuildError('%s: %s'%(s,r.stderr[-3000:]))
                hs.append(o)
            r=subprocess.run([cxx]+list(flags)+(['-shared'] if shared else [])+hs+objs+list(linkflags)+LIBS+list(extra)+['-o',out+'.tmp'],
                             env=make_env(),capture_output=True,text=True)
            if r.returncode!=0: raise BuildError('link %s: %s'%(name,r.stderr[-3000:]))
            os.rename(out+'.tmp',out)
    return out

_tc={}
def tree_cached(bdir):
    if bdir not in _tc: _tc[bdir]=json.load(open(os.path.join(bdir,'.vf-done')))
    return _tc[bdir]

# ------------------------------------------------------------------ checks
def jsonable(x):
    if isinstance(x,dict): return {k if isinstance(k,str) else str(k): jsonable(v) for k,v in x.items()}
    if isinstance(x,(list,tuple,set,frozenset)): return [jsonable(v) for v in x]
    if hasattr(x,'tolist'): return x.tolist()
    return x
class Check:
    """One run of one check"""
    def __init__(s,pid,level,technique=None):
        s.pid,s.level=pid,level
        s.t0=time.time()
        s.viol=[]; s.known=[]; s.cov={}; s.samples=[]; s.assumptions=[]
        s.counts={}
        s.kf=[k for k in load_known() if k['property']==pid]
    def count(s,k,n=1): s.counts[k]=s.counts.get(k,0)+n
    def sample(s,x,n=4):
        if len(s.samples)<n: s.samples.append(x)
    def violation(s,key,what,replay):
        """key: identifies the failing input/call site/history. replay: json-able"""
        for k in s.kf:
            if k['key']==key:
                if key not in [x[0] for x in s.known]: s.known.append((key,k['what']))
                return
        s.viol.append(dict(key=key,what=what,replay=replay))
    def finish(s,coverage):
        wall=time.time()-s.t0
        os.makedirs(os.path.join(VERIF,'evidence'),exist_ok=True)
        cov=dict(s.counts); cov.update(coverage)
        cov.setdefault('samples',s.samples or ['(none)'])
        ev=dict(property=s.pid,tier='thorough' if TIER=='thorough' else 'quick',seed=SEED,level=s.level,coverage=cov,
                assumptions=s.assumptions,wall_s=round(wall,2),violations=len(s.viol))
        with open(os.path.join(VERIF,'evidence',s.pid+'.json'),'w') as f: json.dump(jsonable(ev),f,indent=1,default=str)
        for key,what in s.known: print('KNOWN-FINDING: property=%s %s'%(s.pid,what))
        short={k:v for k,v in cov.items() if isinstance(v,(int,float,bool))}
        print('%s: %s wall=%.1fs'%(s.pid,short,wall))
        if s.viol:
            d=os.path.join(VERIF,'evidence','replay'); os.makedirs(d,exist_ok=True)
            seen=set()
            for i,v in enumerate(s.viol[:int(os.environ.get('VF_MAXV','20'))]):
                path=os.path.join(d,'%s-%d.json'%(s.pid,i))
                with open(path,'w') as f: json.dump(jsonable(dict(property=s.pid,**v)),f,indent=1,default=str)
                if i<6: print('  %s: %s'%(v['key'],str(v['what'])[-500:]))
            cnt={}
            for v in s.viol: cnt[v['key']]=cnt.get(v['key'],0)+1
            print('  (%d violations in all: %s)'%(len(s.viol),cnt))
            print('VIOLATION property=%s replay=%s'%(s.pid,os.path.relpath(os.path.join(d,'%s-0.json'%s.pid),VERIF)))
            sys.stdout.flush()
            return 1
        sys.stdout.flush()
        return 0

def load_known():
    p=os.path.join(VERIF,'known-findings.txt')
    out=[]
    if os.path.exists(p):
        for l in open(p):
            l=l.strip()
            if not l.startswith('finding:'): continue
            # finding: property=<id> key=<key> <what>
            a=l.split(None,3)
            out.append(dict(property=a[1].split('=',1)[1],key=a[2].split('=',1)[1],what=a[3]))
    return out

def silence():
    if os.environ.get('VF_STDERR')=='1': return
    n=os.open(os.devnull,os.O_WRONLY); os.dup2(n,2); os.dup2(n,1); os.close(n)

def seed_random(i):
    """mrcal itself uses numpy's global random state (to seed fits, ...): make each run the same"""
    import random
    random.seed(i)
    if 'numpy' in sys.modules: sys.modules['numpy'].random.seed(i+int(os.environ.get('VF_RANDOM','0')))
def pmap(fn,items,nproc=None,chunk=None):
    """Parallel map over a finite list, in forked processes. Yields (item_index,result). A worker
    that dies is reported as a result of ('died',signal)"""
    items=list(items)
    nproc=nproc or NPROC
    if not items: return []
    if chunk is None: chunk=max(1,min(64,len(items)//(nproc*4) or 1))
    groups=[list(range(i,min(i+chunk,len(items)))) for i in range(0,len(items),chunk)]
    results=[None]*len(items)
    import pickle,select
    running={}
    def spawn(g):
        r,w=os.pipe()
        pid=os.fork()
        if pid==0:
            try:
                os.close(r)
                silence()
                signal.alarm(int(os.environ.get('VF_GROUP_TIMEOUT','600')))
                f=os.fdopen(w,'wb')
                for i in g:
                    seed_random(i)
                    try: x=('ok',fn(items[i]))
                    except Exception: x=('exc',traceback.format_exc())
                    pickle.dump((i,x),f); f.flush()
                f.close()
            finally: os._exit(0)
        os.close(w)
        running[r]=[pid,g,b'']
    todo=groups[::-1]
    while todo or running:
        while todo and len(running)<nproc: spawn(todo.pop())
        rd,_,_=select.select(list(running),[],[])
        for r in rd:
            d=os.read(r,1<<20)
            if d: running[r][2]+=d; continue
            os.close(r)
            pid,g,buf=running.pop(r)
            _,st=os.waitpid(pid,0)
            import io
            f=io.BytesIO(buf); done=set()
            while True:
                try: i,x=pickle.load(f)
                except Exception: break
                results[i]=x; done.add(i)
            rest=[i for i in g if i not in done]
            if rest:
                results[rest[0]]=('died',st)
                if rest[1:]: todo.append(rest[1:])
    return results

def reseed_env():
    """Re-executes this process with the fixed environment, and mrcal importable from the build"""
    if os.environ.get('VF_ENV')=='1': return os.environ['VF_BDIR']
    b=build()
    e=dict(os.environ); e.update(ENV); e['VF_ENV']='1'; e['VF_BDIR']=b
    e['PYTHONPATH']=b+':'+os.path.join(VERIF,'lib')
    e['LD_LIBRARY_PATH']=b
    os.execve('/usr/bin/python3',['/usr/bin/python3']+sys.argv,e)

def main(fn,pid,level):
    try:
        b=reseed_env()
    except BuildError as ex:
        print(ex); sys.exit(3)
    c=Check(pid,level)
    try:
        cov=fn(c,b)
    except Exception:
        traceback.print_exc()
        sys.exit(3)
    sys.exit(c.finish(cov))
