"""Expected residuals and jacobians of the documented cost function for every selection of
optimized variables, from one evaluation of the reference with everything selected."""
import numpy as np, itertools
import ref,probs

def collabels(L):
    out=[]
    for (k,j),(i,l) in L.sblocks.items():
        if k=='intrinsics':
            idx=(list(range(4)) if L.sel['core'] else [])+(list(range(4,4+L.nd)) if L.sel['dist'] else [])
        else: idx=range(l)
        out+=[(k,j,e) for e in idx]
    return out
def rowlabels(L):
    out=[]
    for (k,j),(i,l) in L.mblocks.items():
        if k!='reg': out+=[(k,j,e) for e in range(l)]
        else:
            if L.sel['reg']:
                if L.sel['dist']: out+=[('reg-dist',c,e) for c in range(L.Nci) for e in range(L.nd)]
                if L.sel['core']: out+=[('reg-center',c,e) for c in range(L.Nci) for e in range(2)]
            if L.sel['unity'] and L.sel['ext'] and L.Nce>0: out+=[('reg-unity',0,0)]
    return out
class Full:
    def __init__(s,make,jac=True):
        """make(sel): the Prob with that selection"""
        s.P=make(dict.fromkeys(probs.SELKEYS,1))
        if s.P.warp is None: s.P=make(dict(dict.fromkeys(probs.SELKEYS,1),warp=0))
        L=s.P.L
        s.rows={r:i for i,r in enumerate(rowlabels(L))}
        s.cols={c:i for i,c in enumerate(collabels(L))}
        b=s.P.state()
        s.x=s.P.resid()
        if jac:
            # triangulated rows do not depend on anything but the extrinsics
            s.J=ref.cgrad(s.P.resid,b)*L.scale()
    def expect(s,L):
        r=[s.rows[k] for k in rowlabels(L)]; c=[s.cols[k] for k in collabels(L)]
        return s.x[r],(s.J[np.ix_(r,c)] if hasattr(s,'J') else None)

S3=[(0,-1),(1,0)]; MV=[(0,-1),(0,0),(1,1)]; ALLE=[(0,0),(1,1)]
def special(P,how):
    """rotations where the gradients have special cases"""
    if how=='zero rotations':
        P.ext[:,:3]=0; P.frames[:,:3]=0
    elif how=='tiny rotations':
        P.ext[:,:3]*=1e-9; P.frames[:,:3]*=1e-10
    elif how=='half turns':
        if len(P.frames): P.frames[:,:3]=np.array([(0,0,np.pi),(0,0,-np.pi),(.001,.002,np.pi-1e-5)])[:1].repeat(len(P.frames),0)
        if len(P.ext): P.ext[:,:3]=(0,0,3.)
    elif how=='no tilt':
        P.ext[:,:2]=0; P.frames[:,:2]=0
SHAPES={
 'boards, reference camera':dict(sens=S3),
 'boards, no reference camera, 4x3':dict(sens=ALLE,Nf=2,W=4,H=3,spacing=.13),
 'moving cameras':dict(sens=MV,Nf=1),
 'stationary, one frame each':dict(sens=S3,Nf=2,boards=[(0,0),(0,1),(1,1)],W=2,H=2),
 'points only':dict(sens=S3,Nf=0,boards=[],Np=3),
 'points, all fixed':dict(sens=S3,Nf=0,boards=[],Np=2,Npf=2),
 'boards and points':dict(sens=S3,Nf=1,Np=3,Npf=1),
 'moving, boards and points':dict(sens=MV,Nf=1,Np=2,pts=[(0,0),(0,1),(1,2),(0,2),(1,0)]),
 'one camera':dict(sens=[(0,-1)],Nf=2),
 'one camera, moving':dict(sens=[(0,0),(0,1)],Nf=1,Np=1),
 'flat board':dict(sens=S3,Nf=1,warp=False),
}
TRI={
 'triangulated':dict(sens=S3,Nf=0,boards=[],tri=[[0,1],[0,1],[1,0]]),
 'triangulated, moving':dict(sens=[(0,-1),(0,0),(0,1)],Nf=0,boards=[],tri=[[0,1],[1,2],[0,1,2],[2,0,1]]),
 'triangulated, boards, points':dict(sens=MV,Nf=1,Np=2,Npf=1,tri=[[0,2],[1,0,2]]),
 'triangulated, no reference':dict(sens=[(0,0),(0,1),(0,2)],Nf=0,boards=[],tri=[[0,1,2],[1,2]]),
 'triangulated, fixed point':dict(sens=S3,Nf=0,boards=[],Np=2,Npf=2,tri=[[0,1],[0,1]]),
}
SPECIAL=('zero rotations','tiny rotations','half turns','no tilt')
def selections(tri,boards,warp):
    for s in probs.sels():
        if tri and (s['core'] or s['dist'] or not s['ext']): continue
        if s['warp'] and (warp is False): continue
        yield s
def maker(model,args,spec=None):
    def make(sel):
        a=dict(args)
        P=probs.Prob(model,sel=sel,**a)
        if spec: special(P,spec)
        return P
    return make
