#!/usr/bin/env python3
"""P13: the C model reader and writer.

Enumerated: models of all lens types written by the toolkit (all must be read, by every entry point, with the
values Python reads); every truncation, every single-byte and single-token edit (deletion, duplication, swap,
substitution and insertion over an alphabet) of them, pairs of token edits, sizes around page boundaries, and
oversized fields. Every text is read in buffers that are exactly as large as promised, under
address/undefined-behaviour sanitizers, and with every size of caller buffer around the needed one. What is
returned is compared with a Python literal of the same text."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf,itertools,io,re,struct,subprocess,tempfile,ast,warnings
import numpy as np
import P08,P12
BITS={1:'buffer with a length and terminated string differ',2:'file and string differ',4:'a file was left open',8:'a mapping was left',16:'big-enough caller buffer refused',32:'caller buffer: different values',
      64:'too-small caller buffer accepted',128:'needed size of the caller buffer misreported',256:'caller buffer: accepted what the allocating reader refused',512:'caller buffer: a size was asked for, but that is not what failed',0x1000:'mrcal_free_cameramodel() did not clear the pointer'}
class Reader:
    """The harness process"""
    def __init__(s,exe,d):
        s.path=os.path.join(d,'f%d.cameramodel'%os.getpid()); s.exe=exe; s.p=None
    def start(s):
        e=dict(os.environ,ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4000:abort_on_error=0',UBSAN_OPTIONS='print_stacktrace=0')
        s.p=subprocess.Popen([s.exe,s.path],stdin=subprocess.PIPE,stdout=subprocess.PIPE,stderr=subprocess.PIPE if os.environ.get('VF_STDERR') else subprocess.DEVNULL,env=e)
    def get(s,n):
        b=s.p.stdout.read(n)
        if len(b)!=n: raise EOFError
        return b
    def int(s): return struct.unpack('<i',s.get(4))[0]
    def send(s,op,t):
        if s.p is None: s.start()
        s.p.stdin.write(op.encode()+struct.pack('<i',len(t))+t); s.p.stdin.flush()
    def read(s,t,op='P'):
        """-> problem or None, model or None"""
        try:
            s.send(op,t); bad=s.int(); ok=s.int()
            if not ok: return bad,None
            name=s.get(s.int()).decode('latin1'); n=s.int()
            rt=np.frombuffer(s.get(48)); sz=struct.unpack('<II',s.get(8)); k=np.frombuffer(s.get(8*n))
            return bad,(name,k,rt,sz)
        except (EOFError,BrokenPipeError):
            r=s.p.wait(); s.p=None
            return 'the reader crashed (exit %s)'%r,None
    def write(s,t):
        try: s.send('W',t); return s.int(),s.int()
        except (EOFError,BrokenPipeError):
            r=s.p.wait(); s.p=None
            return 'the writer crashed (exit %s)'%r,0
    def close(s):
        if s.p: s.p.stdin.close(); s.p.wait()
def meaning(name):
    try: v=P08.reference(name)
    except Exception: return None
    return None if v[2] is None else v[1:]
def text_verdict(t):
    """What a text says, read as a Python literal: None if it isn't one; False if it's not a model; or the values"""
    t=t.split(b'\0')[0]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore'); d=ast.literal_eval(t.decode().lstrip())
    except Exception: return None
    if not isinstance(d,dict): return False
    d={(k.decode('latin1') if isinstance(k,bytes) else k):v for k,v in d.items()}
    rt=d.get('rt_cam_ref',d.get('extrinsics')); sz=d.get('imagersize'); k=d.get('intrinsics'); n=d.get('lensmodel')
    if isinstance(n,bytes): n=n.decode('latin1')
    if not isinstance(n,str) or meaning(n) is None: return False
    num=lambda x,m: isinstance(x,(list,tuple)) and len(x)==m and all(isinstance(y,(int,float)) and not isinstance(y,bool) for y in x)
    if not isinstance(k,(list,tuple)) or not num(k,len(k)) or not num(rt,6) or not num(sz,2) or not all(isinstance(x,int) and x>=0 for x in sz): return False
    if P08.nparams(*meaning(n))!=len(k): return False
    return n,np.array(k,float),np.array(rt,float),tuple(sz)
def judge(t,bad,m,must):
    """must: the values this text has to be read with, or None"""
    out=[]
    if isinstance(bad,str): return [bad]
    if bad: out+=[v for k,v in BITS.items() if bad&k]
    if must is not None and m is None: return out+['a model written by the toolkit was refused']
    if m is None: return out
    w=must if must is not None else text_verdict(t)
    if w is None: return out
    if w is False: return out+['not a model, but read as %s'%(str(m)[:200],)]
    if meaning(m[0])!=meaning(w[0]): out.append('lensmodel read as %s instead of %s'%(m[0],w[0]))
    if not np.array_equal(m[1],w[1]): out.append('intrinsics read as %s instead of %s'%(m[1].tolist(),w[1].tolist()))
    if not np.all(np.abs(m[2]-w[2])<=(1.01e-9 if t.count(b'extrinsics')+t.count(b'rt_cam_ref')>1 else 0)): out.append('extrinsics read as %s instead of %s'%(m[2].tolist(),w[2].tolist()))
    if tuple(m[3])!=tuple(w[3]): out.append('imagersize read as %s instead of %s'%(m[3],w[3]))
    return out
TOK=re.compile(rb"b?'[^'\n]*'|\"[^\"\n]*\"|#[^\n]*\n|[-+0-9.eE]+|\s+|.",re.S)
TALPHA=[b'{',b'}',b'[',b']',b'(',b')',b',',b':',b"'",b'"',b'#',b'# c\n',b'\n',b'\0',b'0',b'-1',b'-',b'.',b'1e',b'1e999',b'-1e-400',b'nan',b'inf',b'0x10',b'00',b'1.5',b'4294967296',b'2147483648',b'9'*40,b"'lensmodel'",b"'intrinsics'",b"'imagersize'",b"'extrinsics'",b"'rt_cam_ref'",b"''",b"'LENSMODEL_PINHOLE'",b"'LENSMODEL_OPENCV8'",b"b'x'",b'[[1,2],[3]]',b'[]',b'None',b'\\',b'\xff']
BALPHA=b'{}[](),:\'"# \n\r\t\0-+.eE019ab_\\\xff'
def run(item):
    exe,cases=item
    bad=[]; n=0; acc=0
    with tempfile.TemporaryDirectory() as d:
        r=Reader(exe,d)
        for t,op,must in cases:
            b,m=r.read(t,op); n+=1; acc+=m is not None
            for x in judge(t,b,m,must):
                if len(bad)<40: bad.append((x,t if len(t)<2000 else t[:200]+b'... %d bytes'%len(t)))
        r.close()
    return bad,n,acc
def models():
    """models as the toolkit writes them: text, values"""
    import mrcal,domain
    out=[]
    names=['LENSMODEL_PINHOLE','LENSMODEL_STEREOGRAPHIC','LENSMODEL_LONLAT','LENSMODEL_LATLON','LENSMODEL_OPENCV4','LENSMODEL_OPENCV5','LENSMODEL_OPENCV8','LENSMODEL_OPENCV12','LENSMODEL_CAHVOR','LENSMODEL_CAHVORE_linearity=0.37','LENSMODEL_CAHVORE_linearity=-2.5','LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=3_Ny=4_fov_x_deg=80','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=11_Ny=8_fov_x_deg=120']
    for i,n in enumerate(names):
        for j,(rt,sz) in enumerate(itertools.product(P12.EXT,P12.SIZES)):
            k=P12.intr(n,j,mrcal.lensmodel_num_params(n))
            if n[:17]=='LENSMODEL_SPLINED': k[:4]=(100,110,50,60)
            for q,note in ((P12.REGIONS[(i+j)%len(P12.REGIONS)],P12.NOTES[(i*7+j)%len(P12.NOTES)]),):
                m=P12.make((n,k,rt,sz,q)); s=io.StringIO(); m.write(s,**({} if note is None else dict(note=note)))
                out.append((s.getvalue().encode(),n))
    for x,note in itertools.product(P12.REGIONS,P12.NOTES):
        m=P12.make((names[0],P12.intr(names[0],1,4),P12.EXT[1],(640,480),x)); s=io.StringIO(); m.write(s,**({} if note is None else dict(note=note)))
        out.append((s.getvalue().encode(),names[0]))
    return out
def valid(item):
    """toolkit texts: what Python reads is what C has to read. Also the C writer"""
    import mrcal
    exe,items=item; bad=[]; n=0
    with tempfile.TemporaryDirectory() as d:
        r=Reader(exe,d)
        for t,_ in items:
            p=mrcal.cameramodel(io.StringIO(t.decode()))
            must=(p.intrinsics()[0],p.intrinsics()[1],p.rt_cam_ref(),tuple(int(x) for x in p.imagersize()))
            b,m=r.read(t,'F'); n+=1
            for x in judge(t,b,m,must): bad.append((x,t[:1500]))
            # the C writer
            w,leak=r.write(t); n+=1
            if isinstance(w,str) or w!=1: bad.append(('C writer returned %s'%(w,),t[:1500])); continue
            if leak: bad.append(('C writer left the file open',t[:1500]))
            t2=open(r.path,'rb').read()
            b,m2=r.read(t2,'F'); n+=1
            if m2 is None or b: bad.append(('written by C; the C reader: %s'%(b,),t[:1500])); continue
            try: q=mrcal.cameramodel(r.path)
            except Exception as e: bad.append(('written by C; the Python reader: %r'%e,t[:1500])); continue
            for who,g in (('C',m2),('Python',(q.intrinsics()[0],q.intrinsics()[1],q.rt_cam_ref(),tuple(int(x) for x in q.imagersize())))):
                if meaning(g[0])!=meaning(must[0]) or not P12.near(g[1],must[1]) or not P12.near(g[2],must[2]) or tuple(g[3])!=must[3]:
                    bad.append(('written by C, read by %s: %s'%(who,str(g)[:300]),t[:1500]))
        r.close()
    return bad[:40],n,n
def edits(t,th,small):
    """all single edits of a text"""
    out={}
    for i in range(len(t)+1):
        out[t[:i]]=1
        if not small: continue
        if i<len(t): out[t[:i]+t[i+1:]]=1; out[t[:i]+t[i:i+1]*2+t[i+1:]]=1
        if i+1<len(t): out[t[:i]+t[i+1:i+2]+t[i:i+1]+t[i+2:]]=1
        for ch in (range(256) if th else BALPHA):
            c=bytes([ch])
            out[t[:i]+c+t[i:]]=1
            if i<len(t): out[t[:i]+c+t[i+1:]]=1
    tk=TOK.findall(t)
    for i in range(len(tk)):
        J=lambda *x: b''.join(x)
        a,b=J(*tk[:i]),J(*tk[i+1:])
        out[a+b]=1; out[a+tk[i]*2+b]=1; out[a+tk[i]+b',' +tk[i]+b]=1
        for s in TALPHA: out[a+s+b]=1; out[a+s+tk[i]+b]=1
        for j in range(i+1,len(tk)):
            if tk[i].isspace() or tk[j].isspace(): continue
            mid=J(*tk[i+1:j]); e=J(*tk[j+1:])
            out[a+mid+e]=1; out[a+tk[j]+mid+tk[i]+e]=1
            if small and th:
                for x,y in itertools.product((b'',b'}',b']',b',',b':',b"'",b'7',b"'extrinsics'",b'#',b'['),repeat=2): out[a+x+mid+y+e]=1
    # lines: all subsets of few, orders
    ls=re.split(rb'(?<=\n)',t)
    for i in range(len(ls)):
        for j in range(len(ls)):
            o=list(ls); x=o.pop(i); o.insert(j,x); out[b''.join(o)]=1
            out[b''.join(ls[:j]+[ls[i]]+ls[j:])]=1
    return out
PINH=b"{'lensmodel': 'LENSMODEL_PINHOLE','intrinsics': [1,2,3,4],'extrinsics': [1,2,3,4,5,6],'imagersize': [7,8]}"
def special():
    """hand-made texts: sizes around pages, oversized fields"""
    for N in (4096,8192,12288):
        for d in (-2,-1,0,1,2):
            k=N+d-len(PINH)
            for pad in (PINH+b' '*k,b'#'+b'x'*(k-2)+b'\n'+PINH,PINH[:-1]+b','+b' '*(k-1)+b'}',PINH[:-1]+b",'x':'"+b'y'*(k-6)+b"'}"):
                yield pad,'F',text_verdict(PINH)
            yield PINH+b' '*(k-2)+b' #','F',None
            yield PINH[:-1]+b",'x':"+b'['*k,'F',None; yield PINH[:-1]+b",'x':'"+b'y'*k,'F',None; yield b'#'*(N+d),'F',None; yield b' '*(N+d),'F',None; yield b'{'+b'1'*(N+d-1),'F',None
            yield PINH[:-1]+b",'"+b'k'*(k-3)+b"'",'F',None
    yield b'','F',None; yield b'','N',None; yield b'\0','F',None; yield PINH,'N',text_verdict(PINH)
    for n in (300,1024,1025,5000,10**6,3*10**7):
        for a,b in ((PINH[:-1]+b",'x':",b'}'),(b"{'lensmodel': 'LENSMODEL_PINHOLE','extrinsics': [1,2,3,4,5,6],'imagersize': [7,8],'intrinsics': [1,2,3,",b']}'),(b"{'lensmodel': 'LENSMODEL_PINHOLE','extrinsics': [1,2,3,4,5,6],'intrinsics': [1,2,3,4],'imagersize': [7,",b']}')):
            yield a+b'1'*n+b,'P',None; yield a+b'0.'+b'0'*n+b'1'+b,'P',None; yield a+b'1e'+b'0'*n+b,'P',None; yield a+b'['*n+b']'*n+b,'P',None
            yield a+b"'"+b'L'*n+b"'"+b,'P',None
        for nm in (b'L'*n,b'LENSMODEL_PINHOLE'+b'_'*n,b'LENSMODEL_CAHVORE_linearity='+b'0'*n,b'LENSMODEL_CAHVORE_linearity=0.'+b'3'*n,b'LENSMODEL_SPLINED_STEREOGRAPHIC_order='+b'0'*n+b'3_Nx=11_Ny=8_fov_x_deg=120',b'LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=11_Ny=8_fov_x_deg=120'+b'0'*n):
            yield PINH.replace(b'LENSMODEL_PINHOLE',nm),'P',None
        yield b"{'"+b'k'*n+b"':3}",'P',None; yield b"{'"+b'k'*n,'P',None
        yield PINH[:-1]+b',}'+b' '*n,'P',text_verdict(PINH); yield b' \n'*n+PINH,'P',text_verdict(PINH); yield b'#'*n+b'\n'+PINH,'P',text_verdict(PINH)
    for v in ('0','1','2147483647','2147483648','4294967295','4294967296','4294967297','9223372036854775807','18446744073709551617','9'*30,'-1','1.0','+1','01','1e3'):
        for i in (7,8): yield PINH.replace(b'[7,8]',b'[7,8]'.replace(b'%d'%i,v.encode())),'F',None
    for v in ('1.7976931348623157e308','1.8e308','1e309','-1e400','5e-324','1e-400','.5','5.','.','-','-.','+1','1e','1e+','e5','-0','1.e5','.e5','1e05','0x1p3','1_0','nan','inf','','1 2','1\n','# c\n1','1 # c\n'):
        for a,b in ((b'[1,2,3,4]',b'[1,2,3,V]'),(b'[1,2,3,4]',b'[V,2,3,4]'),(b'[1,2,3,4,5,6]',b'[V,2,3,4,5,6]'),(b'[1,2,3,4,5,6]',b'[1,2,3,4,5,V]')):
            yield PINH.replace(a,b.replace(b'V',v.encode()),1),'P',None
    # all counts of values in each list, all key subsets and orders, repeated keys
    for n in range(0,9):
        for k in (b'intrinsics',b'extrinsics',b'imagersize'):
            yield re.sub(b"'"+k+rb"': \[[^]]*\]",b"'"+k+b"': ["+b','.join(b'%d'%(x+1) for x in range(n))+b']',PINH),'F',None
    keys=[b"'lensmodel':'LENSMODEL_PINHOLE'",b"'intrinsics':[1,2,3,4]",b"'extrinsics':[1,2,3,4,5,6]",b"'imagersize':[7,8]",b"'rt_cam_ref':[1,2,3,4,5,6]",b"'rt_cam_ref':[1,2,3,4,5,6.0001]",b"'lensmodel':'LENSMODEL_OPENCV4'",b"'intrinsics':[1,2,3,4,5,6,7,8]",b"'lensmodel':'LENSMODEL_NO'"]
    for n in range(0,6):
        for p in itertools.product(keys,repeat=n):
            if n<5 or len(set(p))==5: yield b'{'+b','.join(p)+b'}','P',None
def main(c,b):
    import harness
    th=vf.TIER=='thorough'
    exe=harness.parser(b)
    tot=acc=0; ncase=0
    ms=models()
    ch=[ (exe,ms[i::64]) for i in range(64) ]
    for it,r in zip(ch,vf.pmap(valid,ch,chunk=1)):
        if r[0]!='ok': c.violation('toolkit text:'+r[0],str(r[1]),dict()); continue
        bad,n,a=r[1]; tot+=n; acc+=a
        for x,t in bad: c.violation('toolkit text',x,dict(text=t.decode('latin1'),what=x))
    c.sample(dict(kind='toolkit text',text=ms[5][0].decode('latin1')))
    cases={}
    bases=[ms[0][0],ms[len(ms)//2][0]]
    want=lambda f: next(t for t,n in ms if f(t,n))
    pin=want(lambda t,n: 'PINHOLE' in n and b'region' not in t and len(t)<330)
    cav=want(lambda t,n: 'CAHVORE' in n and b'region' in t)
    spl=want(lambda t,n: 'Nx=3' in n)
    opp=PINH.replace(b"'extrinsics'",b'b"rt_cam_ref"').replace(b'[7,8]',b'(7 ,\n#c\n8,)')+b'\r\n'
    for t,small in ((PINH,True),(opp,th),(pin,th),(cav,th),(spl,False)):
        for x in edits(t,th,small): cases.setdefault(x,'P')
    n1=len(cases)
    allc=[(t,'P' if i%29 else 'F',None) for i,t in enumerate(cases)]+list(special())
    big=[x for x in allc if len(x[0])>10**5]; allc=[x for x in allc if len(x[0])<=10**5]
    ch=[(exe,allc[i::120]) for i in range(120)]+[(exe,big[i::40]) for i in range(40)]
    for it,r in zip(ch,vf.pmap(run,ch,chunk=1)):
        if r[0]!='ok': c.violation('text:'+r[0],str(r[1]),dict()); continue
        bad,n,a=r[1]; tot+=n; acc+=a
        for x,t in bad: c.violation('text','%s: %r'%(x,t[:300]),dict(text=t.decode('latin1'),what=x))
    c.sample(dict(kind='edited text',text=list(cases)[n1//2].decode('latin1')))
    return dict(evaluations=tot,distinct_nontrivial=tot,texts=len(ms)+len(allc)+len(big),accepted=acc,exhaustive=True,
                rule='evaluation: one distinct text read through every entry point (string, length-delimited, file, caller buffers of every capacity around the needed one) under sanitizers')
if __name__=='__main__': vf.main(main,'P13','exploration')
