#!/usr/bin/env python3
"""P17: images.

Enumerated: pixel types x sizes x memory layouts x pixel patterns x formats; each saved by mrcal, read back by mrcal
with no type and with each type requested, and read by other software (OpenCV, and a PNG/PNM decoder here). Files
written by others (OpenCV, and an encoder here: all PNG bit depths, palettes, row filters; PNM comments). All
unsupported combinations have to raise an error."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf,itertools,zlib,struct,tempfile
import numpy as np
TYPES={'8':(np.uint8,()),'16':(np.uint16,()),'24':(np.uint8,(3,))}
LOAD={'8':dict(bits_per_pixel=8,channels=1),'16':dict(bits_per_pixel=16,channels=1),'24':dict(bits_per_pixel=24,channels=3)}
def pattern(t,h,w,k):
    dt,ch=TYPES[t]; m=np.iinfo(dt).max; n=h*w*(3 if ch else 1); i=np.arange(n,dtype=np.int64)
    x={'zero':i*0,'max':i*0+m,'const':i*0+m//3,'up':i*(m//max(1,n)),'down':m-i*(m//max(1,n)),'hash':(i*2654435761+(i*i)%97*40503)%(m+1),
       'wrap':(i*i)%(m+1),'two':np.where(i%2,m,0),'firstmax':np.where(i==0,m,i%7),'lastmin':np.where(i==n-1,1,5+i%7),'narrow':1000%(m+1)+i%3,'ends':np.where(i==0,0,np.where(i==n-1,m,m//2)),
       'bytes':(0x0102 if m>255 else 1)+i*0}[k]
    return x.astype(dt).reshape((h,w)+ch)
PATTERNS=['zero','max','const','up','down','hash','wrap','two','firstmax','lastmin','narrow','ends','bytes']
def layout(a,k):
    """the same pixels in another memory layout. None: doesn't apply"""
    h,w=a.shape[:2]; rb=a.strides[0]
    raw=np.ascontiguousarray(a).reshape(h,-1).view(np.uint8)
    def rows(pad,fill=0xA5,off=0):
        buf=np.full((h+1)*(rb+pad)+off+64,fill,np.uint8)
        buf=buf[off:]
        v=np.lib.stride_tricks.as_strided(buf,(h,rb),(rb+pad,1)); v[...]=raw
        o=np.ndarray(a.shape,a.dtype,buffer=buf.data,strides=(rb+pad,)+a.strides[1:])
        return o
    if k=='dense': return a.copy()
    if k[:3]=='pad': return rows(int(k[3:]))
    if k=='offset': return rows(0,off=a.dtype.itemsize)
    if k=='offsetodd': return rows(0,off=1) if a.dtype.itemsize>1 else None
    if k=='crop':
        b=np.full((h+4,w+7)+a.shape[2:],77,a.dtype); b[2:2+h,3:3+w]=a; return b[2:2+h,3:3+w]
    if k=='everyotherrow':
        b=np.full((2*h,w)+a.shape[2:],77,a.dtype); b[::2]=a; return b[::2]
    if k=='flipped': return np.ascontiguousarray(a[::-1])[::-1]
    if k=='flippedpad': return layout(np.ascontiguousarray(a[::-1]),'crop')[::-1]
    if k=='mirrored': return np.ascontiguousarray(a[:,::-1])[:,::-1]
    if k=='bgrflip': return np.ascontiguousarray(a[...,::-1])[...,::-1] if a.ndim==3 else None
    if k=='fortran': return np.asfortranarray(a)
    if k=='transposed': return np.ascontiguousarray(np.swapaxes(a,0,1)).swapaxes(0,1)
    if k=='everyothercol':
        b=np.full((h,2*w)+a.shape[2:],77,a.dtype); b[:,::2]=a; return b[:,::2]
    if k=='channels4':
        if a.ndim<3: return None
        b=np.full((h,w,4),77,a.dtype); b[...,:3]=a; return b[...,:3]
    if k=='planes': return np.ascontiguousarray(np.moveaxis(a,-1,0)).transpose(1,2,0) if a.ndim==3 else None
    if k=='repeat': return np.broadcast_to(a[:1],a.shape) if (a==a[:1]).all() else None
    if k=='overlap':
        f=a.reshape(h,-1)
        if f.shape[1]<2 or not all((f[i+1,:-1]==f[i,1:]).all() for i in range(h-1)): return None
        buf=np.r_[f[:,0],f[-1,1:]]; return np.lib.stride_tricks.as_strided(buf,a.shape,(a.dtype.itemsize,)+a.strides[1:])
    if k=='swapped': return a.astype(a.dtype.newbyteorder()) if a.dtype.itemsize>1 else None
    if k=='readonly': o=a.copy(); o.flags.writeable=False; return o
MUST=('dense','pad2','pad4','pad64','offset','crop','everyotherrow','readonly')
LAYOUTS=MUST+('pad1','pad3','offsetodd','flipped','flippedpad','mirrored','bgrflip','fortran','transposed','everyothercol','channels4','planes','repeat','overlap','swapped')
FORMATS={'8':('png','pgm','jpg'),'16':('png','pgm'),'24':('png','ppm','jpg')}
def pnm(data):
    """P5/P6 reader per the netpbm specification"""
    p=0; v=[]
    while len(v)<4:
        while data[p:p+1].isspace(): p+=1
        if data[p:p+1]==b'#':
            p=data.index(b'\n',p); continue
        e=p
        while not data[e:e+1].isspace(): e+=1
        v.append(data[p:e]); p=e
    p+=1; w,h,m=(int(x) for x in v[1:]); c={b'P5':1,b'P6':3}[v[0]]
    dt='>u2' if m>255 else 'u1'
    a=np.frombuffer(data,dt,offset=p)
    if a.size!=w*h*c: raise Exception('size %d for %dx%dx%d'%(a.size,w,h,c))
    a=a.reshape((h,w)+((3,) if c==3 else ())).astype(a.dtype.newbyteorder('='))
    return a[...,::-1] if c==3 else a
def png(data):
    """minimal PNG reader (no interlacing)"""
    assert data[:8]==b'\x89PNG\r\n\x1a\n'; p=8; z=b''
    while p<len(data):
        n,=struct.unpack('>I',data[p:p+4]); k=data[p+4:p+8]; d=data[p+8:p+8+n]
        assert struct.unpack('>I',data[p+8+n:p+12+n])[0]==zlib.crc32(k+d)
        p+=12+n
        if k==b'IHDR': w,h,bd,ct,_,_,il=struct.unpack('>IIBBBBB',d)
        if k==b'IDAT': z+=d
    assert il==0 and bd in (8,16)
    ch={0:1,2:3}[ct]; bpp=ch*bd//8; raw=zlib.decompress(z); rb=w*bpp; prev=bytearray(rb); out=[]
    assert len(raw)==h*(rb+1)
    for y in range(h):
        f=raw[y*(rb+1)]; r=bytearray(raw[y*(rb+1)+1:(y+1)*(rb+1)])
        for i in range(rb):
            a=r[i-bpp] if i>=bpp else 0; b=prev[i]; c=prev[i-bpp] if i>=bpp else 0
            if f==1: x=a
            elif f==2: x=b
            elif f==3: x=(a+b)//2
            elif f==4:
                q=a+b-c; pa,pb,pc=abs(q-a),abs(q-b),abs(q-c); x=a if pa<=pb and pa<=pc else b if pb<=pc else c
            else: x=0
            r[i]=(r[i]+x)&255
        out.append(bytes(r)); prev=r
    a=np.frombuffer(b''.join(out),'>u2' if bd==16 else 'u1').reshape((h,w)+((3,) if ch==3 else ()))
    a=a.astype(a.dtype.newbyteorder('='))
    return a[...,::-1] if ch==3 else a
def writepng(a,bd,ct,filt,plte=None):
    """PNG writer. a: (h,w) or (h,w,ch) samples in file order; filt: the row filters, cycled"""
    h,w=a.shape[:2]; ch=1 if a.ndim==2 else a.shape[2]
    if bd==16: rows=[a[y].astype('>u2').tobytes() for y in range(h)]
    elif bd==8: rows=[a[y].astype('u1').tobytes() for y in range(h)]
    else:
        rows=[]
        for y in range(h):
            bits=''.join(format(int(v),'0%db'%bd) for v in a[y]); bits+='0'*(-len(bits)%8)
            rows.append(bytes(int(bits[i:i+8],2) for i in range(0,len(bits),8)))
    bpp=max(1,ch*bd//8); prev=bytes(len(rows[0])); o=b''
    for y,r in enumerate(rows):
        f=filt[y%len(filt)]; e=bytearray(len(r))
        for i in range(len(r)):
            A=r[i-bpp] if i>=bpp else 0; B=prev[i]; C=prev[i-bpp] if i>=bpp else 0
            q=A+B-C; pa,pb,pc=abs(q-A),abs(q-B),abs(q-C)
            x=(0,A,B,(A+B)//2,A if pa<=pb and pa<=pc else B if pb<=pc else C)[f]
            e[i]=(r[i]-x)&255
        o+=bytes([f])+bytes(e); prev=r
    ck=lambda k,d: struct.pack('>I',len(d))+k+d+struct.pack('>I',zlib.crc32(k+d))
    return b'\x89PNG\r\n\x1a\n'+ck(b'IHDR',struct.pack('>IIBBBBB',w,h,bd,ct,0,0,0))+(ck(b'PLTE',plte) if plte else b'')+ck(b'IDAT',zlib.compress(o))+ck(b'IEND',b'')
def stretch(a):
    lo,hi=int(a.min()),int(a.max())
    if lo==hi: return None # documented as a stretch; a flat image has nothing to stretch
    return (a.astype(float)-lo)*255/(hi-lo)
def loads(fn,a,t,what,lossy,bad,mrcal):
    """load as it is and as each type"""
    n=0
    for want in (None,'8','16','24'):
        n+=1
        kw={} if want is None else LOAD[want]
        try: b=mrcal.load_image(fn,**kw)
        except Exception as e: b=e
        w=want or t
        fail={('8','16'),('16','24'),('24','16')}
        if (t,w) in fail:
            if not isinstance(b,Exception): bad.append('%s: loaded as %s instead of an error'%(what,w))
            continue
        if isinstance(b,Exception): bad.append('%s: load as %s: %r'%(what,want,b)); continue
        dt,ch=TYPES[w]
        if b.dtype!=dt or b.shape!=a.shape[:2]+ch: bad.append('%s: loaded as %s: %s %s'%(what,want,b.dtype,b.shape)); continue
        if not b.flags.c_contiguous or not b.flags.writeable: bad.append('%s: loaded array not dense and writable'%what)
        if w==t: exp,tol=a.astype(float),lossy
        elif (t,w)==('8','24'): exp,tol=np.repeat(a[...,None],3,-1).astype(float),lossy
        elif (t,w)==('16','8'): exp,tol=stretch(a),.5+2e-4
        else: exp,tol=a@np.array((.114,.587,.299)),1.5+lossy
        if exp is None:
            if (b!=b.flat[0]).any(): bad.append('%s: a flat image loaded as %s is not flat'%(what,want))
        elif not np.max(np.abs(exp-b))<=tol: bad.append('%s: loaded as %s: pixels off by up to %g'%(what,want,np.max(np.abs(exp-b))))
    return n
def other(fn,f,t):
    import cv2
    d=open(fn,'rb').read()
    out=[('OpenCV',cv2.imread(fn,cv2.IMREAD_UNCHANGED))]
    if f=='png': out.append(('PNG specification',png(d)))
    if f in ('pgm','ppm'): out.append(('PNM specification',pnm(d)))
    return out
def save(item):
    import mrcal
    t,h,w,pats,lays,forms=item
    bad=[]; n=0; known={}
    with tempfile.TemporaryDirectory() as d:
        for k,f in itertools.product(pats,forms):
            a=pattern(t,h,w,k); first=None
            for l in lays:
                v=layout(a,l)
                if v is None: continue
                assert (v==a).all() and v.shape==a.shape
                what='%s-bit %dx%d %s %s .%s'%(t,w,h,k,l,f); fn=os.path.join(d,'x.'+f); n+=1
                if l!='dense' and os.path.exists(fn): os.unlink(fn)
                try: r=mrcal.save_image(fn,v); ok=True
                except Exception as e: ok=False; why=e
                if not (v==a).all(): bad.append(what+': saving changed the array')
                if not ok:
                    if l in MUST: bad.append(what+': save: %r'%why)
                    continue
                if r is not None: bad.append(what+': save_image returned %r'%(r,))
                data=open(fn,'rb').read()
                if first is None: first=data
                elif data==first: continue # the same file as the dense array
                elif l!='dense' and f!='jpg': pass
                lossy=0 if f!='jpg' else 12
                if f=='jpg' and k not in ('zero','max','const','bytes','narrow'):
                    # not smooth: what can be said is that each layout is the same
                    if data!=first: bad.append(what+': not the same file as for the dense layout')
                    b=mrcal.load_image(fn)
                    if b.shape!=a.shape or b.dtype!=a.dtype: bad.append(what+': loaded as %s %s'%(b.dtype,b.shape))
                    if k in ('up','down') and t=='8' and h*w>200 and np.abs(b.astype(int)-a).max()>24: bad.append(what+': lossy load off by %d'%np.abs(b.astype(int)-a).max())
                    continue
                n+=loads(fn,a,t,what,lossy,bad,mrcal)
                for who,b in other(fn,f,t):
                    n+=1
                    if b is None or b.shape!=a.shape or b.dtype!=a.dtype: bad.append('%s: read by %s: %s'%(what,who,None if b is None else (b.dtype,b.shape))); continue
                    if np.abs(b.astype(int)-a).max()>lossy:
                        if f=='pgm' and t=='16' and (b.byteswap()==a).all(): known['pgm16-byte-order']=what; continue
                        bad.append('%s: read by %s: different pixels'%(what,who))
    return bad[:20],n,known
def foreign(item):
    """files written by others"""
    import mrcal,cv2
    h,w=item; bad=[]; n=0; known={}
    with tempfile.TemporaryDirectory() as d:
        def one(ext,data,a,t,what,lossy=0):
            nonlocal n
            fn=os.path.join(d,'x.'+ext)
            if callable(data): data(fn)
            else: open(fn,'wb').write(data)
            B=[]; n+=loads(fn,a,t,what,lossy,B,mrcal)
            if t=='16' and ext=='pgm' and B:
                # is the byte order all that's wrong?
                B2=[]; loads(fn,a.byteswap(),t,what,lossy,B2,mrcal)
                if not B2: known['pgm16-byte-order']=what; return
            bad.extend(B)
        for k in PATTERNS:
            for t in '8','16','24':
                a=pattern(t,h,w,k)
                for f in FORMATS[t]:
                    if f=='jpg' and k not in ('zero','max','const'): continue
                    one(f,lambda fn: cv2.imwrite(fn,a),a,t,'%s %dx%d %s .%s by OpenCV'%(t,w,h,k,f),0 if f!='jpg' else 12)
                ra=a if a.ndim==2 else a[...,::-1]
                for fl in ((0,),(1,),(2,),(3,),(4,),(4,1,3,2,0)):
                    one('png',writepng(ra,16 if t=='16' else 8,2 if t=='24' else 0,fl),a,t,'%s %dx%d %s png filters %s'%(t,w,h,k,fl))
                hd=lambda s: (s%(w,h)).encode()
                if t!='16':
                    P='P6' if t=='24' else 'P5'
                    for s in (P+'\n%d %d\n255\n',P+' %d %d 255 ',P+'\n# comment\n%d\n%d\n255\n',P+'\n# a\n# b 3 4\n%d # c\n %d\n255\n'):
                        one('ppm' if t=='24' else 'pgm',hd(s)+ra.tobytes(),a,t,'%s %dx%d %s %r'%(t,w,h,k,s))
                else: one('pgm',hd('P5\n%d %d\n65535\n')+a.astype('>u2').tobytes(),a,t,'16 %dx%d %s pgm, big-endian'%(w,h,k))
            # an alpha channel, ignored
            a=pattern('24',h,w,k); al=pattern('8',h,w,PATTERNS[(PATTERNS.index(k)+5)%len(PATTERNS)])
            one('png',writepng(np.dstack((a[...,::-1],al)),8,6,(4,1)),a,'24','RGBA %dx%d %s'%(w,h,k))
            # fewer bits, palettes
            for bd in 1,2,4:
                s=pattern('8',h,w,k)>>(8-bd)
                one('png',writepng(s,bd,0,(0,1,2)),(s*(255//(2**bd-1))).astype(np.uint8),'8','grey %d bits %dx%d %s'%(bd,w,h,k))
            for bd in 1,2,4,8:
                s=pattern('8',h,w,k)>>(8-bd); pl=((np.arange(3*2**bd)*37+11)%256).astype(np.uint8).reshape(-1,3)
                one('png',writepng(s,bd,3,(0,1),pl.tobytes()),pl[s][...,::-1],'24','palette %d bits %dx%d %s'%(bd,w,h,k))
        # unsupported files
        a=pattern('24',h,w,'hash').astype(np.uint16)*257; g=pattern('8',h,w,'hash')
        fn=os.path.join(d,'y.png')
        for what,data in (('16-bit colour',writepng(a,16,2,(0,))),('8-bit grey+alpha',writepng(np.dstack((g,g)),8,4,(0,))),('16-bit grey+alpha',writepng(np.dstack((g,g)).astype(int)*3,16,4,(0,))),('16-bit RGBA',writepng(np.dstack((a,g)),16,6,(0,))),
                          ('empty file',b''),('text',b'hello world, not an image'),('missing',None),('directory',1)):
            if os.path.isdir(fn): os.rmdir(fn)
            if os.path.exists(fn): os.unlink(fn)
            if data==1: os.mkdir(fn)
            elif data is not None: open(fn,'wb').write(data)
            for want in (None,'8','16','24'):
                n+=1
                try: b=mrcal.load_image(fn,**({} if want is None else LOAD[want]))
                except Exception: continue
                # converting is fine if it's the pixels
                bad.append('%s loaded as %s: %s %s'%(what,want,b.dtype,b.shape))
    return bad[:20],n,known
def combos(item):
    """unsupported arguments; names; repeated use of one file name"""
    import mrcal
    bad=[]; n=0
    with tempfile.TemporaryDirectory() as d:
        good={t:pattern(t,4,5,'hash') for t in TYPES}
        # arrays
        arrs=[]
        for dt in 'bool int8 int16 int32 uint32 int64 uint64 float32 float64 complex128 S1 U1 O'.split():
            for sh in ((4,5),(4,5,3)): arrs.append(np.zeros(sh,dt))
        for dt in (np.uint8,np.uint16):
            for sh in ((),(3,),(0,0),(0,5),(4,0),(4,5,1),(4,5,2),(4,5,4),(0,5,3),(4,0,3),(4,5,0),(1,4,5),(2,4,5,3)): arrs.append(np.zeros(sh,dt))
        arrs+=[np.zeros((4,5,3),np.uint16),None,[[1,2],[3,4]],'x',7]
        for a in arrs:
            for f in ('png','jpg','pgm','ppm'):
                n+=1; fn=os.path.join(d,'u.'+f)
                try: mrcal.save_image(fn,a)
                except Exception: continue
                bad.append('saved %s as %s'%((a.dtype,a.shape) if isinstance(a,np.ndarray) else repr(a),f))
        # type x format
        for t in TYPES:
            for f in 'png jpg pgm ppm'.split():
                if f in FORMATS[t]: continue
                n+=1
                try: mrcal.save_image(os.path.join(d,'v.'+f),good[t]); bad.append('%s saved as %s'%(t,f))
                except Exception: pass
        # names
        for t in TYPES:
            for e,ok in (('PNG',1),('Png',1),('pNm',0),('PGM',t!='24'),('PPM',t=='24'),('JPG',t!='16'),('jpeg',0),('tif',0),('png ',0),('bmp',0),('',0),('png.gz',0)):
                for base in ('a','a.b','x'*200,'sp ace','é'):
                    n+=1; fn=os.path.join(d,base+('.' if e else '')+e)
                    try: mrcal.save_image(fn,good[t]); r=True
                    except Exception: r=False
                    if r!=bool(ok): bad.append('saving %s as %r: %s'%(t,base[:9]+'.'+e,'accepted' if r else 'refused'))
                    if r and e.lower()!='jpg' and (mrcal.load_image(fn)!=good[t]).any(): bad.append('%s: different pixels'%fn)
        cwd=os.getcwd(); os.chdir(d)
        try:
            for fn,ok in (('a.png',1),('.png',0),('png',0),('',0),('b',0)):
                n+=1
                try: mrcal.save_image(fn,good['8']); r=True
                except Exception: r=False
                if r!=bool(ok) and fn!='.png': bad.append('saving %r: %s'%(fn,r))
            for fn in ('a.pgm/x.png','nodir/x.png','nodir/x.pgm','nodir/x.jpg'):
                n+=1
                try: mrcal.save_image(fn,good['8']); bad.append('saved to %r'%fn)
                except Exception: pass
        finally: os.chdir(cwd)
        # requested types
        fn=os.path.join(d,'a.png')
        for bpp,ch in itertools.product((-1,0,1,8,16,24,32,9),(-1,0,1,2,3,4)):
            n+=1
            try: r=mrcal.load_image(fn,bits_per_pixel=bpp,channels=ch)
            except Exception: r=None
            want=(bpp<=0 and ch<=0) or (bpp,ch) in ((8,1),(24,3))
            if (r is not None)!=want: bad.append('load with bits_per_pixel=%d channels=%d: %s'%(bpp,ch,r is not None))
        # one file name, overwritten: all sequences of 3 images
        ims=[pattern('8',1,1,'max'),pattern('8',9,31,'hash'),pattern('16',3,4,'hash'),pattern('16',20,5,'up'),pattern('24',2,7,'hash'),pattern('24',30,30,'two')]
        for f in ('png','pgm','ppm'):
            for s in itertools.product([i for i in ims if f in FORMATS['24' if i.ndim==3 else '16' if i.itemsize==2 else '8']],repeat=3):
                fn=os.path.join(d,'seq.'+f)
                for i in s:
                    n+=1; mrcal.save_image(fn,i); b=mrcal.load_image(fn)
                    if b.dtype!=i.dtype or b.shape!=i.shape or (b!=i).any(): bad.append('overwriting %s: %s'%(f,[x.shape for x in s]))
    return bad[:30],n,{}
def run(item): return dict(save=save,foreign=foreign,combos=combos)[item[0]](item[1])
def main(c,b):
    th=vf.TIER=='thorough'
    sizes=list(itertools.product(range(1,9 if th else 5),repeat=2))+[(3,16),(2,33),(17,1),(1,64),(33,47),(200,3),(64,64)]
    items=[('combos',None)]
    for t in TYPES:
        for h,w in sizes:
            items.append(('save',(t,h,w,PATTERNS if th or h*w<70 else PATTERNS[3:9],LAYOUTS,FORMATS[t])))
    items+=[('foreign',s) for s in (sizes if th else [(1,1),(1,2),(2,1),(3,4),(5,9),(4,17)])]
    tot=0; known={}
    for it,r in zip(items,vf.pmap(run,items,chunk=1)):
        if r[0]!='ok': c.violation('crash','%s %s: %s'%(it[0],str(it[1])[:80],str(r[1])[-400:]),dict(item=str(it))); continue
        bad,n,k=r[1]; tot+=n; known.update(k)
        for x in bad: c.violation(it[0]+' '+x.split(':')[-2 if x.count(':') else 0][:40],x,dict(item=str(it),what=x))
    for k,w in known.items(): c.violation(k,'16-bit .pgm files are written and read with the low byte first (the format says high byte first): '+w,dict(what=w))
    for t in TYPES: c.sample(dict(type=t,layouts=LAYOUTS,formats=FORMATS[t],sizes=sizes))
    return dict(evaluations=tot,distinct_nontrivial=tot,exhaustive=True,rule='evaluation: one save, one load, or one reading by other software')
if __name__=='__main__': vf.main(main,'P17','exploration')
