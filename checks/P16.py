#!/usr/bin/env python3
"""P16: traversal of sensor links, priority queue.

Enumerated: all connection matrices of up to N sensors over an alphabet of strengths, each traversed fully and stopped
at every callback (C function, under sanitizers; the costs are 65536-shared per link; against all-pairs shortest
paths); the Python function on the smaller ones, over matrix layouts, callback results and exceptions. The priority
queue: all reachable states under push, pop, cost change with a re-sort."""
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','lib'))
import vf,itertools,subprocess,ctypes
import numpy as np
def cmats(item):
    exe,N,lo,step,alpha=item
    p=subprocess.run([exe,str(N),str(lo),str(step)]+[str(a) for a in alpha],stdout=subprocess.PIPE,stderr=subprocess.PIPE,env=dict(os.environ,ASAN_OPTIONS='detect_leaks=1:detect_stack_use_after_return=1'))
    out=p.stdout.decode().splitlines(); bad=[l for l in out if l.startswith('BAD')]
    t=[l for l in out if l.startswith('TOTAL')]
    if not t or (p.returncode!=0)!=bool(bad): bad.append('crashed: '+p.stderr.decode('latin1')[-300:])
    t=t[0].split() if t else (0,0,0,0)
    return bad,int(t[1]),int(t[2])
def dist(M):
    N=len(M); D=[[0 if i==j else (65536-int(M[i][j]) if M[i][j] else 1<<60) for j in range(N)] for i in range(N)]
    for m,i,j in itertools.product(range(N),repeat=3): D[i][j]=min(D[i][j],D[i][m]+D[m][j])
    return D[0]
def judge(M,seq):
    N=len(M); D=dist(M); seen={0}; last=0
    for to,fr in seq:
        if to in seen: return '%d visited twice'%to
        if fr not in seen: return '%d before its parent %d'%(to,fr)
        if not M[to][fr] or D[fr]+65536-int(M[to][fr])!=D[to]: return '%d through %d is not a best path'%(to,fr)
        if D[to]<last: return 'order'
        last=D[to]; seen.add(to)
    if seen!={i for i in range(N) if D[i]<1<<60}: return 'visited %s'%sorted(seen)
def pymats(item):
    import mrcal
    N,alpha,lo,step=item; bad=[]; n=0
    class Stop(Exception): pass
    for g,e in enumerate(itertools.product(alpha,repeat=N*(N-1)//2)):
        if g%step!=lo: continue
        M=np.zeros((N,N),np.uint16); k=0
        for i in range(N):
            for j in range(i+1,N): M[i,j]=M[j,i]=e[k]; k+=1
        big=np.full((2*N,3*N),999,np.uint16); big[1::2,1::3]=M
        for what,v in (('dense',M),('fortran',np.asfortranarray(M)),('strided',big[1::2,1::3]),('flipped',M[::-1,::-1].copy()[::-1,::-1]),('list',M)):
            seq=[]; n+=1
            r=mrcal.traverse_sensor_links(connectivity_matrix=v,callback_sensor_link=lambda a,b: seq.append((a,b)))
            w=judge(M,seq)
            if w: bad.append('%s %s: %s: %s'%(what,M.tolist(),w,seq))
            if not r: bad.append('%s returned %r'%(M.tolist(),r))
            if (v!=M).any(): bad.append('matrix changed')
        for s in range(len(seq)+1):
            for how in ('raise','False'):
                n+=1; got=[]
                def cb(a,b):
                    got.append((a,b))
                    if len(got)-1==s:
                        if how=='raise': raise Stop('x')
                        return False
                    return [None,True,0,'x'][len(got)%4]
                try: mrcal.traverse_sensor_links(connectivity_matrix=M,callback_sensor_link=cb); e=None
                except Exception as x: e=x
                if s<len(seq):
                    if e is None or got!=seq[:s+1]: bad.append('%s stopped at %d (%s): %r %s'%(M.tolist(),s,how,e,got))
                    if how=='raise' and not isinstance(e,Stop): bad.append('%s: the exception became %r'%(M.tolist(),e))
                elif e is not None or got!=seq: bad.append('%s never stopped: %r'%(M.tolist(),e))
    return bad[:20],n,n
def pyargs(_):
    import mrcal
    bad=[]; n=0; ok=lambda a,b: None
    M=np.array([[0,3],[3,0]],np.uint16)
    for a in [M.astype(t) for t in ('u1','i2','u4','i4','i8','f8','>u2','O','?')]+[M[:1],M[:,:1],M[0],np.zeros((2,2,2),np.uint16),None,3,'x',np.zeros((),np.uint16),[[0,3],[3,0]]]:
        n+=1
        try: mrcal.traverse_sensor_links(connectivity_matrix=a,callback_sensor_link=ok); bad.append('matrix %r accepted'%(a,))
        except Exception: pass
    for c in (None,3,'x'):
        n+=1
        try: mrcal.traverse_sensor_links(connectivity_matrix=M,callback_sensor_link=c); bad.append('callback %r accepted'%c)
        except Exception: pass
    for k in (dict(),dict(connectivity_matrix=M),dict(callback_sensor_link=ok)):
        n+=1
        try: mrcal.traverse_sensor_links(**k); bad.append('incomplete arguments accepted')
        except Exception: pass
    # reentrant: a traversal inside the callback of another
    T=np.array([[0,5,0,3,0],[5,0,2,5,0],[0,2,0,0,5],[3,5,0,0,0],[0,0,5,0,0]],np.uint16)
    for d in range(1,5):
        n+=1; seq=[]
        def trav(lev):
            q=[]
            def cb(a,b):
                if lev<d: trav(lev+1)
                q.append((a,b))
            mrcal.traverse_sensor_links(connectivity_matrix=T,callback_sensor_link=cb)
            w=judge(T,q)
            if w: bad.append('reentered: '+w)
        trav(0 if d<4 else 2)
    # longer chains and stars, grids: N up to 300
    for N in (10,30,100,300):
        for kind in range(6):
            M=np.zeros((N,N),np.uint16); i=np.arange(N)
            if kind==0: M[i[1:],i[:-1]]=1+i[1:]%7
            if kind==1: M[i[1:],0]=i[1:]
            if kind==2: M[i[1:],N-1]=i[1:]; M[N-1,N-1]=0
            if kind==3: M[:]=1+(i[:,None]*37+i*11)%100; M[np.triu_indices(N)]=0
            if kind==4: M[i[1:],(i[1:]-1)//2]=65535
            if kind==5: M[:]=((i[:,None]*i)%7==3)*((i[:,None]+i)%50+65000); M[np.triu_indices(N)]=0
            M=M+M.T; n+=1; seq=[]
            mrcal.traverse_sensor_links(connectivity_matrix=M,callback_sensor_link=lambda a,b: seq.append((a,b)))
            # Dijkstra over arrays
            D=np.full(N,1<<60); D[0]=0; left=set(range(N))
            while left:
                u=min(left,key=lambda k: D[k]); left.discard(u)
                if D[u]>=1<<60: break
                for v in np.nonzero(M[u])[0]: D[v]=min(D[v],D[u]+65536-int(M[u,v]))
            seen={0}; last=0
            for to,fr in seq:
                if to in seen or fr not in seen or not M[to,fr] or D[fr]+65536-int(M[to,fr])!=D[to] or D[to]<last: bad.append('N=%d kind %d: %d-%d'%(N,kind,fr,to)); break
                seen.add(to); last=D[to]
            if len(seen)!=(D<1<<60).sum(): bad.append('N=%d kind %d: visited %d'%(N,kind,len(seen)))
    return bad,n,n
class HeapT(ctypes.Structure): _fields_=[('buffer',ctypes.POINTER(ctypes.c_uint16)),('size',ctypes.c_int)]
def heap(item):
    """all reachable states. A state: the array as the queue holds it, the cost of each node"""
    import capi
    N,costs,part,parts=item
    L=capi.lib()
    P=ctypes.POINTER; hp=P(HeapT); np_=P(ctypes.c_uint64)
    for f,a,r in (('empty',[hp,np_],ctypes.c_bool),('push',[hp,np_,ctypes.c_uint16],None),('pop',[hp,np_],ctypes.c_uint16),('resort',[hp,np_],None)):
        g=getattr(L,'mrcal_heap_'+f); g.argtypes=a; g.restype=r
    bad=[]
    G=3; buf=(ctypes.c_uint16*(N+2*G))(); nodes=(ctypes.c_uint64*(N+2*G))()
    def setup(st):
        b,c=st
        for i in range(N+2*G): buf[i]=0xBEEF; nodes[i]=0
        for i,x in enumerate(b): buf[G+i]=x
        for i,x in enumerate(c): nodes[G+i]=(x<<17)|(0x1000+i) # cost:47, done:1, parent:16
        h=HeapT(ctypes.cast(ctypes.addressof(buf)+2*G,P(ctypes.c_uint16)),len(b))
        return h,ctypes.cast(ctypes.addressof(nodes)+8*G,np_)
    def after(h,c,n,what):
        s=h.size
        if not 0<=s<=N: bad.append(what+': size %d'%s); return None
        b=tuple(buf[G+i] for i in range(s))
        if any(buf[i]!=0xBEEF for i in range(G)) or any(buf[G+N+i]!=0xBEEF for i in range(G)): bad.append(what+': wrote outside')
        if any(nodes[G+i]!=((x<<17)|(0x1000+i)) for i,x in enumerate(c)): bad.append(what+': changed the nodes')
        return b
    start=((),(0,)*N); seen={start}; todo=[start]; trans=0
    while todo:
        st=todo.pop(); b,c=st
        if len(bad)>10: break
        new=[]
        h,n=setup(st)
        if L.mrcal_heap_empty(ctypes.byref(h),n)!=(len(b)==0): bad.append('empty() at %s'%(st,))
        for i in range(N):
            if i in b: continue
            for x in costs:
                c2=c[:i]+(x,)+c[i+1:]
                h,n=setup((b,c2)); L.mrcal_heap_push(ctypes.byref(h),n,i); trans+=1
                w='push of %d (cost %d) at %s'%(i,x,st)
                b2=after(h,c2,n,w)
                if b2 is not None:
                    if sorted(b2)!=sorted(b+(i,)): bad.append(w+': contents %s'%(b2,))
                    else: new.append((b2,c2))
        if b:
            h,n=setup(st); x=L.mrcal_heap_pop(ctypes.byref(h),n); trans+=1
            w='pop at %s'%(st,); b2=after(h,c,n,w)
            if x not in b or c[x]!=min(c[i] for i in b): bad.append(w+': %d'%x)
            elif b2 is not None:
                if sorted(b2+(x,))!=sorted(b): bad.append(w+': contents %s'%(b2,))
                else: new.append((b2,c[:x]+(0,)+c[x+1:]))
            for i in b:
                for x in costs:
                    if x==c[i]: continue
                    c2=c[:i]+(x,)+c[i+1:]
                    h,n=setup((b,c2)); L.mrcal_heap_resort(ctypes.byref(h),n); trans+=1
                    w='cost of %d becomes %d at %s'%(i,x,st); b2=after(h,c2,n,w)
                    if b2 is not None:
                        if sorted(b2)!=sorted(b): bad.append(w+': contents %s'%(b2,))
                        else: new.append((b2,c2))
        for s in new:
            if s not in seen: seen.add(s); todo.append(s)
    return bad[:20],trans,len(seen)
def run(it): return dict(cmats=cmats,pymats=pymats,pyargs=pyargs,heap=heap)[it[0]](it[1])
def main(c,b):
    import harness
    th=vf.TIER=='thorough'; exe=harness.links(b)
    plan=[(1,(0,1),1),(2,(0,1,2,5,40000,65534,65535),1),(3,(0,1,2,3,5,32767,32768,40000,65534,65535),1),(4,(0,1,2,5,40000,65535),4),(5,(0,1,3,65535),16),(6,(0,2),2),(6,(0,65535),2)]
    if th: plan+=[(4,(0,1,2,3,5,30000,32769,65535),8),(5,(0,1,2,60000,65535),32),(6,(0,1,2),48),(7,(0,1),16)]
    items=[('heap',(N,cs,0,1)) for N,cs in ((3,(0,1,2,2**47-1)),(4,(0,1,2)),(5,(0,1)))+(((4,(0,1,2,3)),(5,(0,1,2)),(6,(0,1)),(3,(0,1,2,3,4,2**47-1))) if th else ())]
    for N,al,k in plan: items+=[('cmats',(exe,N,i,k,al)) for i in range(k)]
    for N,al,k in ((1,(0,1),1),(2,(0,1,7),1),(3,(0,1,2,65535),1),(4,(0,1,5),8))+(((5,(0,2,3),32),) if th else ()): items+=[('pymats',(N,al,i,k)) for i in range(k)]
    items.append(('pyargs',None))
    st={}
    for it,r in zip(items,vf.pmap(run,items,chunk=1)):
        if r[0]!='ok': c.violation('crash','%s: %s'%(str(it)[:100],str(r[1])[-400:]),dict(item=str(it))); continue
        bad,n,m=r[1]
        a=st.setdefault(it[0],[0,0]); a[0]+=n; a[1]+=m
        for x in bad: c.violation(it[0],x,dict(item=str(it),what=x))
    c.sample(dict(matrices=[(N,al) for N,al,k in plan]))
    return dict(evaluations=sum(v[0] for v in st.values()),distinct_nontrivial=sum(v[0] for v in st.values()),traversals=st['cmats'][1],matrices=st['cmats'][0],queue_states=st['heap'][1],queue_transitions=st['heap'][0],exhaustive=True,
        rule='evaluation: one connection matrix (with all its stopping points), one Python traversal, or one transition of the priority queue')
if __name__=='__main__': vf.main(main,'P16','exploration')
