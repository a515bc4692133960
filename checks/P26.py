#!/usr/bin/env python3
"""P26: chessboard corner tables are attributed to the right camera, frame and corner.

Enumerated: (rows) every table of a small board over an alphabet of rows x the meaning of the extra column x the minimum
number of corners; (lines) every single and every pair of line faults of a multi-camera table; (names) every small set of
frame numbers x padding x prefix/suffix x cameras x order; (files) camera/frame subsets x ways to locate the images x
excluded images x order of the table. Oracle: a direct reading of the documented format."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf,itertools,io,re,tempfile,shutil
import numpy as np
THOROUGH=os.environ.get('VERIF_TIER')=='thorough'
class Bad(Exception): pass

# ------------------------------------------------------------------ the documented format
def read_row(s,kind):
    f=s.split()
    if len(f) not in (2,3): raise Bad('number of columns')
    if f[0]=='-' or f[1]=='-': return None
    try: x,y=float(f[0]),float(f[1])
    except ValueError: raise Bad('not a number')
    if x<0 or y<0: return None
    if len(f)==2 or kind is None: return x,y,1.
    if f[2]=='-': return None
    try: w=float(f[2])
    except ValueError: raise Bad('not a number')
    if kind=='weight': return None if w<=0 else (x,y,w)
    return None if w<0 else (x,y,2.**-w)
def read_table(lines,W,H,kind,nmin):
    """[(name,corners (H,W,3) with weight<=0 for what was not seen)], in order, without the images that have no board"""
    if nmin is None: nmin=2*min(W,H)
    groups=[]
    for l in lines:
        if l.strip().startswith('#'): continue
        m=l.split(None,1)
        if len(m)<2: raise Bad('malformed line')
        if not groups or groups[-1][0]!=m[0]: groups.append((m[0],[]))
        groups[-1][1].append(read_row(m[1],kind))
    out=[]
    for name,rows in groups:
        if len(rows)==1 and W*H!=1: continue                 # no board here
        if len(rows)!=W*H: raise Bad('wrong number of corners')
        n=sum(r is not None for r in rows)
        if n<=nmin: continue                                 # the tests want "more than", the documentation "at least"
        if name in [o[0] for o in out]: raise Bad('the same image twice')
        out.append((name,np.array([r or (0,0,-1.) for r in rows]).reshape(H,W,3)))
    return out
def same_obs(got,want):
    if got.shape!=want.shape: return False
    inl=want[...,2]>0
    return bool(((got[...,2]>0)==inl).all() and np.array_equal(got[inl],want[inl]))
def run(lines,W,H,globs,kind,nmin,**kw):
    import mrcal
    if nmin is not None: kw['Npoint_observations_per_board_min']=nmin
    if kind!='default': kw['weight_column_kind']=kind
    return mrcal.compute_chessboard_corners(W,H,**(dict(globs_per_camera=globs) if globs is not None else {}),corners_cache_vnl=kw.pop('vnl',None) or io.StringIO(''.join(l+'\n' for l in lines)),jobs=-1,**kw)

# ------------------------------------------------------------------ rows
ROWS=['{x} {y}','{x} {y} 0','{x} {y} 1','{x} {y} 2','{x} {y} -','{x} {y} -1','- -','- - -','-5 {y} 0','{x} -2 1','{x} - 0','{x} {y} 0.0','  {x}   {y}  3 ','0 0','{x}e0 {y} 1e0']
BADROWS=['{x}','','{x} {y} 1 2','{x} foo','foo {y} 0','{x} {y} foo']
def rows(it):
    W,H,alpha,kinds,nmins,first=it; ev=nd=0; out=[]
    for rest in itertools.product(alpha,repeat=W*H-len(first)):
        t=first+rest
        lines=['a/img1.jpg '+r.format(x=10.5+3*i,y=20.25+7*i) for i,r in enumerate(t)]
        for kind in kinds:
            for nmin in nmins:
                ev+=1; cfg=dict(board=(W,H),rows=t,kind=kind,min=nmin)
                try:
                    want=read_table(lines,W,H,'level' if kind=='default' else kind,nmin)
                    if not want: want=None
                except Bad: want=None
                try: got=run(lines,W,H,None,kind,nmin)
                except Exception as e: got=None
                if want is None:
                    if got is not None: out.append((cfg,'accepted, but there is no usable board'))
                    continue
                if got is None: out.append((cfg,'a good table was rejected')); continue
                nd+=1; o,ifc,files=got
                if not same_obs(o,np.array([want[0][1]])): out.append((cfg,'wrong corners or weights'))
                if np.array(ifc).tolist()!=[[0,0]] or list(files)!=['a/img1.jpg']: out.append((cfg,'wrong index or file'))
    return ev,nd,out

# ------------------------------------------------------------------ line faults
def base(order,W,H,third):
    names=['frame%d-cam%d.jpg'%(f,c) for f,c in order]; lines=['## a comment','# filename x y'+(' level' if third else '')]
    for k,n in enumerate(names):
        lines+=['%s %g %g%s'%(n,100*k+3*i+.5,50*k+7*i+.25,' %d'%(i%2) if third else '') for i in range(W*H)]
    return lines
def faults(L,n):
    """one fault at each place"""
    for i in range(len(L)):
        yield 'delete',i,L[:i]+L[i+1:]
        yield 'repeat',i,L[:i+1]+L[i:]
        if i+1<len(L): yield 'swap',i,L[:i]+[L[i+1],L[i]]+L[i+2:]
        yield 'comment',i,L[:i]+['  # x y z']+L[i:]
        yield 'truncate',i,L[:i]
        yield 'undetected',i,L[:i]+[re.sub(r' .*',' - -',L[i])]+L[i+1:]
        if i%3==0:
            yield 'blank',i,L[:i]+['']+L[i:]
            yield 'rename',i,L[:i]+[re.sub('frame.','frame7',L[i])]+L[i+1:]
            yield 'move to the end',i,L[:i]+L[i+1:]+[L[i]]
            yield 'no values',i,L[:i]+[(L[i].split() or ['x'])[0]]+L[i+1:]
def expect(lines,W,H,kind,nmin,ncam):
    t=read_table(lines,W,H,kind,nmin); obs=[]
    for name,o in t:
        m=re.fullmatch(r'frame(\d+)-cam(\d+)\.jpg',name)
        if not m or int(m[2])>=ncam: continue
        obs.append((int(m[1]),int(m[2]),name,o))
    n=[sum(x[1]==c for x in obs) for c in range(ncam)]
    if min(n)<(2 if ncam>1 else 1): raise Bad('too few images')
    obs.sort(key=lambda x:x[:2])
    if len(set(x[:2] for x in obs))!=len(obs): raise Bad('duplicate')
    fr=sorted(set(x[0] for x in obs))
    return np.array([x[3] for x in obs]),[[fr.index(x[0]),x[1]] for x in obs],[x[2] for x in obs]
def compare(cfg,got,want,out,err=None):
    if want is None:
        if got is not None: out.append((cfg,'a malformed table was accepted'))
        return 0
    if got is None: out.append((cfg,'a good table was rejected: %s'%str(err)[:60])); return 0
    if not same_obs(got[0],want[0]): out.append((cfg,'wrong corners or weights'))
    elif np.array(got[1]).tolist()!=want[1]: out.append((cfg,'wrong frame or camera'))
    elif list(got[2])!=want[2]: out.append((cfg,'wrong files'))
    return 1
def lines(it):
    order,W,H,third,ncam,pair,lo,hi=it; ev=nd=0; out=[]
    L=base(order,W,H,third); globs=['frame*-cam%d.jpg'%c for c in range(ncam)]
    cases=[([],L)]+[([f[:2]],f[2]) for f in faults(L,0)]
    if pair: cases=[(a[0]+[f[:2]],f[2]) for a in cases[1:] for f in faults(a[1],0)]
    for what,l in cases[lo:hi]:
        for nmin in (None,W*H) if not pair else (None,):
            ev+=1; cfg=dict(images=order,board=(W,H),third=third,faults=what,min=nmin)
            try: want=expect(l,W,H,'level',nmin,ncam)
            except Bad: want=None
            err=None
            try: got=run(l,W,H,globs,'level',nmin)
            except Exception as e: got=None; err=e
            nd+=compare(cfg,got,want,out,err)
    return ev,nd,out

# ------------------------------------------------------------------ names
FR=['0','1','2','9','10','11','12','19','20','21','99','100','101','110','111','1000','01','001','010','021']
AFFIX=[('frame','-cam%d.jpg'),('img','.png'),('/a/cam%d/f','.jpg'),('cam%d-','-x2.jpg'),('',''),('x1-','-1y.jpg'),('/d2020/','_%d.tiff'),('aa','aa')]
def names(it):
    import mrcal
    ncam,sets,aff=it; ev=nd=0; out=[]
    a,z=AFFIX[aff]
    for fs in sets:
        files=[[(a%c if '%' in a else a)+f+(z%c if '%' in z else z) for f in F] for c,F in enumerate(fs)]
        if len(set(sum(files,[])))!=len(sum(files,[])) : continue    # the cameras can't share a file
        ev+=1; cfg=dict(cameras=files)
        want={}; bad=False
        for c,F in enumerate(fs):
            n=[int(f) for f in F] if len(F)>1 else [0]
            if len(set(n))!=len(n): bad=True
            want.update({f:(k,c) for f,k in zip(files[c],n)})
        try: got=mrcal.mapping_file_framenocameraindex(*files)
        except Exception as e: got=None; err=e
        if ncam==1:
            # only one camera: any numbers that keep the order will do if the names do not say
            if got is None: out.append((cfg,'one camera: rejected')); continue
            if bad:
                if sorted(got)!=sorted(want) or len(set(got.values()))!=len(got): out.append((cfg,'one camera: two images got the same frame'))
            elif got!=want and [f for f,_ in sorted(got.items(),key=lambda x:x[1])]!=files[0]: out.append((cfg,'wrong frame'))
            nd+=1; continue
        if bad:
            if got is not None: out.append((cfg,'two images of a camera have the same frame: no error'))
        elif got is None: out.append((cfg,'rejected: %s'%str(err).split('\n')[0][:70]))
        elif got!=want: out.append((cfg,'wrong frame or camera'))
        else: nd+=1
    return ev,nd,out
def names_odd(_):
    import mrcal
    ev=0; out=[]; N=['a.jpg','b.jpg','a1b1.jpg','a2b2.jpg','x-1.jpg','x-a.jpg','f1x.jpg','f.jpg','f1.jpeg','f2.jpg','1a','2b']
    for k in (1,2,3):
        for F in itertools.permutations(N,k):
            ev+=1
            got=mrcal.mapping_file_framenocameraindex(list(F))
            if sorted(got)!=sorted(F) or len(set(got.values()))!=k or any(v[1]!=0 for v in got.values()): out.append((dict(files=F),'one camera: not one frame per image'))
            # with another camera, the names must say
            ok=k==1 or (len(set(re.sub(r'\d+','#',f,count=1) for f in F))==1 and all(len(re.findall(r'\d+',f))==1 for f in F))
            if k>1:
                pre=[re.fullmatch(r'(\D*)(\d+)(\D*)',f) for f in F]; ok=all(pre) and len(set((m[1],m[3]) for m in pre))==1
            try: r=mrcal.mapping_file_framenocameraindex(list(F),['q1.jpg','q2.jpg']); acc=True
            except Exception: acc=False
            if acc!=ok: out.append((dict(files=F),'two cameras: %s'%('names that do not say the frame were accepted' if acc else 'rejected')))
    for e in ([[]],[['a1','a2'],[]],[[],['a1','a2']]):
        ev+=1
        try: mrcal.mapping_file_framenocameraindex(*e); out.append((dict(files=e),'a camera without images was accepted'))
        except Exception: pass
    return ev,ev,out

# ------------------------------------------------------------------ files
def files(it):
    """where the images are said to be x how the table is given x what is excluded x the order of the table"""
    import mrcal
    loc,how,ncam,pat,order,excl=it; ev=nd=0; out=[]; W,H=3,2
    tmp=tempfile.mkdtemp(prefix='vf-p26-'); cwd=os.getcwd()
    try:
        os.makedirs(tmp+'/data/sub'); os.makedirs(tmp+'/other'); os.chdir(tmp)
        obs=[(f,c) for c in range(ncam) for f in pat[c]]
        if order=='by frame': obs.sort()
        elif order=='reversed': obs=obs[::-1]
        raw={'plain':'frame%02d-cam%d.jpg','sub':'sub/frame%02d-cam%d.jpg','dot':'./frame%02d-cam%d.jpg','abs':'/abs/dir/frame%02d-cam%d.jpg'}[loc]
        names=[raw%o for o in obs]; unm='unrelated%d.jpg'
        L=['# filename x y level']; tab={}
        for k,n in enumerate(names):
            p=np.array([(100*k+3*i+.5,50*k+7*i+.25,.5 if i%2 else 1.) for i in range(W*H)]); tab[obs[k]]=p.reshape(H,W,3)
            L+=['%s %g %g %d'%(n,x,y,0 if w==1 else 1) for x,y,w in p]
            if k==1: L+=['%s - - -'%(unm%1)]+['%s %d %d 0'%(unm%2,i,i) for i in range(W*H)]+['frame77-cam0.jpg - -']
        ex=set()
        if excl=='one': ex={names[0]}
        elif excl=='frame': ex={n for n,o in zip(names,obs) if o[0]==min(x[0] for x in obs)}
        kw={}
        if ex: kw['exclude_images']=ex
        kept=[(o,n) for o,n in zip(obs,names) if n not in ex]
        vdir={'fd':None,'file here':'','file in dir':'data/','absolute file':tmp+'/data/','prefix':None,'directory':None,'prefix+file':'data/','exists':'data/'}[how]
        if vdir is not None:
            kw['vnl']=vdir+'corners.vnl'; open(kw['vnl'],'w').write(''.join(l+'\n' for l in L))
        if how=='exists':
            for n in names:
                if n[0]!='/': os.makedirs(os.path.dirname(os.path.join(tmp,n)) ,exist_ok=True); open(n,'w').close()
        def where(n):
            if how in('prefix','prefix+file'): return 'pre/fix/'+n
            if how=='directory': return '/img/dir/'+os.path.basename(n)
            if how in('file in dir','absolute file') and n[0]!='/': return vdir+n
            return n
        if how in('prefix','prefix+file'): kw['image_path_prefix']='pre/fix'
        if how=='directory': kw['image_directory']='/img/dir'
        cfg=dict(location=loc,how=how,cameras=ncam,frames=pat,order=order,exclude=excl)
        n=[sum(o[1]==c for o,_ in kept) for c in range(ncam)]; bad=min(n)<(2 if ncam>1 else 1)
        for gs in ('relative','dirs'):
            globs=['%sframe*-cam%d.jpg'%({'relative':'','dirs':'*/'}[gs],c) for c in range(ncam)]
            ev+=1; err=None
            try: got=run(L,W,H,globs,'level',None,**dict(kw))
            except Exception as e: got=None; err=e
            if bad:
                if got is not None: out.append((cfg,'too few images: no error'))
                continue
            if got is None: out.append((cfg,'rejected: %s'%str(err)[:80])); continue
            nd+=1; ks=sorted(kept); fr=sorted(set(o[0] for o,_ in ks))
            if not same_obs(got[0],np.array([tab[o] for o,_ in ks])): out.append((cfg,'wrong corners'))
            if np.array(got[1]).tolist()!=[[fr.index(o[0]),o[1]] for o,_ in ks]: out.append((cfg,'wrong frame or camera'))
            if [os.path.abspath(f) for f in got[2]]!=[os.path.abspath(where(n)) for _,n in ks]: out.append((cfg,'wrong paths'))
    finally:
        os.chdir(cwd); shutil.rmtree(tmp)
    return ev,nd,out
def collide(_):
    """different images that become the same path: an error, not a lost image"""
    out=[]; ev=0
    for kw in (dict(image_directory='/img'),):
        for d in (('a','b'),('','b')):
            W,H=3,2; L=[]
            for k,n in enumerate([os.path.join(d[0],'f1.jpg'),os.path.join(d[0],'f2.jpg'),os.path.join(d[1],'f1.jpg')]): L+=['%s %d %d'%(n,100*k+i,i) for i in range(W*H)]
            ev+=1
            try: got=run(L,W,H,None,'level',None,**kw)
            except Exception: continue
            if len(got[0])!=3: out.append((dict(directories=d),'two images became the same path: one was lost'))
    return ev,ev,out
FN=dict(rows=rows,lines=lines,names=names,names_odd=names_odd,files=files,collide=collide)
def go(it): return FN[it[0]](it[1])
def main(c,b):
    items=[]; K=('default','level','weight',None)
    for W,H,alpha,nmins in [(2,2,ROWS if THOROUGH else ROWS[:9],(0,2,3,4,None)),(3,1,ROWS,(1,3)),(1,3,ROWS,(None,1)),(2,2,ROWS[:2]+BADROWS,(1,)),(2,1,ROWS+BADROWS,(0,1,2,None)),(3,2,['{x} {y}','{x} {y} 1','- -']+(['{x} {y} -'] if THOROUGH else []),(3,4,None,6))]:
        for f in itertools.product(alpha,repeat=min(2,W*H-1)): items.append(('rows',(W,H,alpha,K,nmins,f)))
    O3=[[(3,0),(3,1),(12,0),(12,1)],[(1,0),(2,0),(1,1),(2,1),(3,1)],[(10,1),(9,0),(9,1),(10,0)]]
    for o in O3:
        for third in (False,True):
            for W,H in ((3,2),(2,2),(2,3)):
                n=1+len(list(faults(base(o,W,H,third),0)))
                for lo in range(0,n,60): items.append(('lines',(o,W,H,third,2,False,lo,lo+60)))
    for o in O3[:1]+([O3[2]] if THOROUGH else []):
        L=base(o,2,2,True); n=sum(len(list(faults(f[2],0))) for f in faults(L,0))
        for lo in range(0,n,1500): items.append(('lines',(o,2,2,True,2,True,lo,lo+1500)))
    fr2=[list(p) for k in (1,2) for p in itertools.permutations(FR,k)]+[list(p) for p in itertools.combinations(FR,3)]+([list(p) for p in itertools.combinations(FR,4)] if THOROUGH else [])
    for a in range(len(AFFIX)):
        for k in range(0,len(fr2),300):
            items.append(('names',(1,[[f] for f in fr2[k:k+300]],a)))
            items.append(('names',(2,[[f,['5','7']] for f in fr2[k:k+300]]+[[['1','3','12'],f] for f in fr2[k:k+300]],a)))
        two=[list(p) for p in itertools.combinations(FR[:9],2)]
        items.append(('names',(3,[[x,y,z] for x in two[::5] for y in two[::4] for z in two[::7]],a)))
    items+=[('names_odd',0),('collide',0)]
    PAT={1:[([1,2,3],),([10],),([9,10,1],)],2:[([1,2],[1,2]),([1,2,3],[2,3]),([9,10,11],[10,12]),([1,3],[2,4]),([5],[5,6]),([2,10,1],[1,2,10])],3:[([1,2],[2,3],[1,3]),([1,2,3],[1,2,3],[1,2,3])]}
    for loc,how,nc in itertools.product(('plain','sub','dot','abs'),('fd','file here','file in dir','absolute file','prefix','directory','prefix+file','exists'),(1,2,3)):
        if loc=='abs' and 'prefix' in how: continue
        for pat,order,ex in itertools.product(PAT[nc],('by camera','by frame','reversed'),('no','one','frame')): items.append(('files',(loc,how,nc,pat,order,ex)))
    ev=nd=0
    for it,r in zip(items,vf.pmap(go,items)):
        if r[0]!='ok': c.violation('%s:crash'%it[0],'%s %s: %s'%(it[0],str(it[1])[:200],str(r[1])[-300:]),dict(item=it,crash=str(r[1])[-600:])); continue
        n,d,out=r[1]; ev+=n; nd+=d; c.count(it[0],n)
        for cfg,what in out: c.violation('%s:%s'%(it[0],what),'%s: %s'%(what,cfg),dict(kind=it[0],what=what,config=cfg))
    c.sample(dict(rows=ROWS,malformed_rows=BADROWS)); c.sample(dict(frame_numbers=FR,affixes=AFFIX))
    return dict(evaluations=ev,distinct_nontrivial=nd,exhaustive=True,
      rule='every table of a small board over the row alphabet x meaning of the extra column x minimum; every single fault and every pair of faults of a 2-camera table; every set of up to 3 frame numbers x affix x camera count; every camera/frame pattern x location x exclusion x order. Nontrivial: accepted, and compared')
if __name__=='__main__': vf.main(main,'P26','exploration')
