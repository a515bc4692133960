#!/usr/bin/env python3
"""P08: lens model names and configurations.

Enumerated: every lens model with boundary values of every configuration field; every single-character
edit (deletion, replacement, insertion over an alphabet) and every prefix of valid names; every output
buffer size. Each string is given to the C parser and to the Python functions, and compared with a
grammar written from the documentation."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf,itertools,re
import ctypes as C
import numpy as np
class SPL(C.Structure): _fields_=[(n,C.c_uint16) for n in ('order','Nx','Ny','fov_x_deg')]
class CAH(C.Structure): _fields_=[('linearity',C.c_double)]
class CFG(C.Union): _fields_=[('spl',SPL),('cah',CAH)]
class LM(C.Structure): _fields_=[('type',C.c_int),('c',CFG),('pad',C.c_char*64)]
PLAIN=dict(LENSMODEL_PINHOLE=4,LENSMODEL_STEREOGRAPHIC=4,LENSMODEL_LONLAT=4,LENSMODEL_LATLON=4,LENSMODEL_OPENCV4=8,LENSMODEL_OPENCV5=9,LENSMODEL_OPENCV8=12,LENSMODEL_OPENCV12=16,LENSMODEL_CAHVOR=9)
S='LENSMODEL_SPLINED_STEREOGRAPHIC'; H='LENSMODEL_CAHVORE'
BEHIND={S,'LENSMODEL_STEREOGRAPHIC','LENSMODEL_LONLAT','LENSMODEL_LATLON'}
RS=re.compile(S+r'_order=([^=]*)_Nx=([^=]*)_Ny=([^=]*)_fov_x_deg=([^=]*)\Z',re.S)
RH=re.compile(H+r'_linearity=(.*)\Z',re.S)
FL=re.compile(r'[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?\Z')
def reference(name):
    """(verdict,base,config). verdict: True: has to be accepted, False: has to be rejected, None: spelled
    unusually: may be rejected; if accepted it has to mean this configuration"""
    if name in PLAIN: return True,name,{}
    m=RS.match(name)
    if m:
        g=m.groups()
        if all(re.match(r'(0|[1-9]\d*)\Z',x) for x in g): v=True
        elif all(re.match(r'\s*[-+]?\d+\Z',x) for x in g): v=None
        else: return False,S,None
        o,nx,ny,f=map(int,g)
        ok=o in (2,3) and o+1<=nx<65536 and o+1<=ny<65536 and 0<f<360 and 2*nx*ny+4<2**31
        return (v if ok else False),S,dict(order=o,Nx=nx,Ny=ny,fov_x_deg=f)
    m=RH.match(name)
    if m:
        x=m.group(1)
        if FL.match(x):
            f=float(x); return np.isfinite(f),H,dict(linearity=f)
        if re.match(r'\s',x) and FL.match(x.strip()): return None,H,dict(linearity=float(x))
        m=re.match(r'(.*\d\.?)[eE][-+]?\Z',x)   # glibc's scanf() takes an empty exponent
        if m and FL.match(m.group(1)): return None,H,dict(linearity=float(m.group(1)))
        if re.match(r'\s*[-+]?0[xX][0-9a-fA-F]*\.?[0-9a-fA-F]*([pP][-+]?\d+)?\Z',x):
            try: return None,H,dict(linearity=float.fromhex(x.strip()))
            except ValueError: return False,H,None
        return False,H,None
    return False,None,None
_types={}
def nparams(base,cfg):
    return PLAIN[base] if base in PLAIN else 12 if base==H else 4+2*cfg['Nx']*cfg['Ny']
def knots(cfg):
    margin=cfg['order']-1
    step=4*np.tan(cfg['fov_x_deg']*np.pi/180/4)/(cfg['Nx']-1-margin)
    return [ (np.arange(n)-(n-1)/2)*step for n in (cfg['Nx'],cfg['Ny'])]
def lib():
    import capi
    l=capi.lib(); l.mrcal_lensmodel_num_params.restype=C.c_int
    return l
def check_name(name,full):
    import mrcal
    l=lib(); bad=[]
    v,base,cfg=reference(name)
    lm=LM(type=12345,pad=b'\x5a'*63)
    r=l.mrcal_lensmodel_from_name(C.byref(lm),name.encode())
    def fail(*a): bad.append((name,)+a)
    valid=mrcal_valid(lm.type)
    if r!=valid: fail('returned',r,'with type',lm.type)
    if v is True and not r: fail('a valid name was rejected')
    if v is False and r: fail('an invalid name was accepted')
    try: n=mrcal.lensmodel_num_params(name); py=True
    except Exception: py=False
    if py!=r: fail('Python',py,'C',r)
    for f in (mrcal.lensmodel_metadata_and_config,mrcal.knots_for_splined_models) if not r else ():
        try: f(name); fail('Python %s accepted what the C parser rejected'%f.__name__)
        except Exception: pass
    if not r or bad: return bad
    if lm.pad!=b'\x5a'*63 and C.sizeof(LM)>0 and lm.pad[8:]!=b'\x5a'*55: fail('wrote outside the structure')
    got={} if base in PLAIN else {k:getattr(lm.c.cah if base==H else lm.c.spl,k) for k in cfg}
    if got!=cfg: fail('parsed as',got,'expected',cfg); return bad
    if l.mrcal_lensmodel_type_from_name(name.encode())!=lm.type: fail('mrcal_lensmodel_type_from_name() disagrees')
    if n!=nparams(base,cfg) or l.mrcal_lensmodel_num_params(C.byref(lm))!=n: fail('parameter count',n,nparams(base,cfg))
    md=mrcal.lensmodel_metadata_and_config(name)
    want=dict(has_core=1,can_project_behind_camera=int(base in BEHIND),has_gradients=1,noncentral=int(base==H),**cfg)
    if {k:(int(x) if isinstance(x,bool) else x) for k,x in md.items()}!=want: fail('metadata',md,want)
    # printing
    buf=C.create_string_buffer(b'\x5a'*511,512)
    if not l.mrcal_lensmodel_name(buf,400,C.byref(lm)): fail('mrcal_lensmodel_name() failed'); return bad
    out=buf.value.decode()
    lm2=LM()
    if not l.mrcal_lensmodel_from_name(C.byref(lm2),out.encode()) or lm2.type!=lm.type: fail('printed as an unreadable name',out)
    else:
        g2={} if base in PLAIN else {k:getattr(lm2.c.cah if base==H else lm2.c.spl,k) for k in cfg}
        if g2!=cfg: fail('name round trip',out,g2,cfg)
    if base in PLAIN and out!=name: fail('name',out)
    if base==S and out!=S+'_order=%d_Nx=%d_Ny=%d_fov_x_deg=%d'%tuple(cfg[k] for k in ('order','Nx','Ny','fov_x_deg')): fail('name',out)
    if base==H and not out.startswith(H+'_linearity='): fail('name',out)
    un=l.mrcal_lensmodel_name_unconfigured(C.byref(lm)).decode()
    if un!={S:S+'_order=..._Nx=..._Ny=..._fov_x_deg=...',H:H+'_linearity=...'}.get(base,base): fail('unconfigured name',un)
    if full:
        L=len(out)
        for size in range(0,L+3):
            b=C.create_string_buffer(b'\x5a'*(L+20),L+21)
            r=l.mrcal_lensmodel_name(b,size,C.byref(lm))
            if r!=(size>L): fail('buffer size',size,'for a name of length',L,'returned',r)
            raw=b.raw
            if raw[size:L+20]!=b'\x5a'*(L+20-size): fail('wrote past a buffer of size',size)
            if size and raw[:size]!=(out[:size-1].encode()+b'\0'+b'\x5a'*size)[:size] : fail('contents with size',size,raw[:size])
    if base==S and cfg['Nx']<400 and cfg['Ny']<400:
        w=knots(cfg); p=mrcal.knots_for_splined_models(name)
        G=-77.
        ux=np.full(cfg['Nx']+3,G); uy=np.full(cfg['Ny']+3,G)
        import capi
        if not l.mrcal_knots_for_splined_models(capi.D(ux),capi.D(uy),C.byref(lm)): fail('knots failed')
        for a,c,g in zip(w,(ux,uy),p):
            if len(g)!=len(a) or np.abs(g-a).max()>1e-11*(1+np.abs(a).max()) or (c[:-3]!=g).any() or (c[-3:]!=G).any(): fail('knots',g,a)
    elif base!=S:
        try: mrcal.knots_for_splined_models(name); fail('knots of a model which has none')
        except Exception: pass
    return bad
def mrcal_valid(t): return t in _valid()
def _valid():
    if not _types:
        l=lib()
        for n in list(PLAIN)+[S,H]: _types[l.mrcal_lensmodel_type_from_name(n.encode())]=n
    return _types
def case(item):
    bad=[]
    for n,f in item: bad+=check_name(n,f)
    return bad[:6],len(item)
def main(c,bdir):
    import mrcal
    th=vf.TIER=='thorough'
    l=lib()
    # the list of supported models
    i=0; names=[]
    p=l.mrcal_supported_lensmodel_names()
    while p[i]: names.append(p[i].decode()); i+=1
    want=set(PLAIN)|{S+'_order=..._Nx=..._Ny=..._fov_x_deg=...',H+'_linearity=...'}
    if set(names)!=want or len(names)!=len(want): c.violation('supported','supported models: %s'%names,names)
    if list(mrcal.supported_lensmodels())!=names: c.violation('supported','Python list: %s'%(mrcal.supported_lensmodels(),),names)
    if len(_valid())!=len(want): c.violation('types','lens model types are not distinct',dict(_types))
    lm=LM()
    if l.mrcal_lensmodel_from_name(C.byref(lm),None) or lm.type in _types: c.violation('null','NULL name was accepted',0)
    if l.mrcal_lensmodel_type_from_name(None) in _types: c.violation('null','NULL type name was accepted',0)
    for n,t in [(v,k) for k,v in _types.items()]:
        for suf in ('_','x','_x',' '):
            g=l.mrcal_lensmodel_type_from_name((n+suf).encode()); w=t if (n in (S,H) and suf[0]=='_') else None
            if (g==t)!=(w==t): c.violation('type','type of %s'%(n+suf),dict(name=n+suf,got=g))
    todo=[]
    for o,nx,ny,f in itertools.product((0,1,2,3,4,5,65535,65538),(0,1,2,3,4,5,11,255,256,300,32767,65535,65536,65540),(0,1,2,3,4,5,11,255,256,32767,32768,65535,65539),(0,1,30,179,180,200,359,360,361,65535,65536,65566) if th else (0,1,120,180,359,360,65566)):
        todo.append((S+'_order=%d_Nx=%d_Ny=%d_fov_x_deg=%d'%(o,nx,ny,f),nx<6 and ny<12))
    for o,nx,ny,f in itertools.product((2,3),range(3,41 if th else 14),range(3,25 if th else 10),range(1,360,7 if th else 29)): todo.append((S+'_order=%d_Nx=%d_Ny=%d_fov_x_deg=%d'%(o,nx,ny,f),False))
    vals=[0,1,-1,.37,.125,1/3,-2/7,1e-3,1e-9,12345.678,1e300,5e-324,np.nextafter(.5,1),100,.05,.005,.015]
    reps=set()
    for v in vals:
        for x in (v,-v): reps|={repr(float(x)),'%.2f'%x,'%g'%x,'%.17g'%x,'%e'%x,'%d'%int(x) if abs(x)<1e9 else '1','%+.3f'%x}
    reps|={'nan','inf','-inf','infinity','NAN','nan(1)','','.','1e','1e999','-1e999','0x1p-2','0x','1_0',' 0.5','\t0.5','0.5 ','0,5','+','-','--1','1.2.3','.5','5.','1d0','0.5f'}
    todo+=[(H+'_linearity='+x,True) for x in sorted(reps)]
    base=list(PLAIN)+[S,H,S+'_order=3_Nx=11_Ny=8_fov_x_deg=120',S+'_order=2_Nx=3_Ny=30_fov_x_deg=90',H+'_linearity=0.37',H+'_linearity=-1.5e-3']
    alpha='_=. -+0139aAeExXNnLK\t\n%s5' if th else '_=. -+03aLx4%'
    for b in base:
        todo.append((b,True))
        for i in range(len(b)+1):
            todo.append((b[:i],False)); todo.append((b[i:],False))
            if i<len(b): todo.append((b[:i]+b[i+1:],False)); todo.append((b[:i]+b[i].swapcase()+b[i+1:],False))
            if i+1<len(b): todo.append((b[:i]+b[i+1]+b[i]+b[i+2:],False))
            for ch in alpha:
                todo.append((b[:i]+ch+b[i:],False))
                if i<len(b): todo.append((b[:i]+ch+b[i+1:],False))
        for t in itertools.product(alpha,repeat=2): todo.append((b+''.join(t),False))
    # the fields: missing, repeated, reordered, renamed
    F=dict(order='order=3',Nx='Nx=11',Ny='Ny=8',fov='fov_x_deg=120')
    for k in range(0,6 if th else 5):
        for t in itertools.product(list(F.values())+['linearity=0.37'],repeat=k):
            todo.append((S+''.join('_'+x for x in t),False))
            if k<3: todo.append((H+''.join('_'+x for x in t),False))
    todo+=[(x+y,False) for x in base for y in base[:6]]
    seen={}
    for n,f in todo:
        if '\0' not in n: seen[n]=seen.get(n,False) or f
    todo=sorted(seen.items())
    ch=[todo[i::199] for i in range(199)]
    n=0
    for it,r in zip(ch,vf.pmap(case,ch,chunk=1)):
        if r[0]=='ok':
            bad,k=r[1]; n+=k
            for b in bad: c.violation('name','%s'%(b,),dict(name=b[0],detail=b))
        else:
            # find which name
            for one in it:
                r1=vf.pmap(case,[[one]])[0]
                if r1[0]!='ok': c.violation('case:'+r1[0],'%r: %s'%(one[0],r1[1]),dict(name=one[0])); break
    acc=sum(1 for x,_ in todo if reference(x)[0])
    for x,_ in todo[::len(todo)//4]: c.sample(dict(name=x,verdict=str(reference(x)[0])))
    return dict(evaluations=n,distinct_nontrivial=n,valid_names=acc,exhaustive=True,
                rule='evaluation: one distinct string given to the C and Python parsers, with everything reported about it compared with the grammar')
if __name__=='__main__': vf.main(main,'P08','exploration')
