"""Reference rigid-body math in extended precision, and the alphabets of poses"""
import numpy as np
LD=np.longdouble
def sq(x): return (x*x).sum(-1)
def skew(v):
    z=np.zeros_like(v[...,0])
    return np.stack((np.stack((z,-v[...,2],v[...,1]),-1),np.stack((v[...,2],z,-v[...,0]),-1),np.stack((-v[...,1],v[...,0],z),-1)),-2)
def coeffs(t):
    """sin(th)/th, (1-cos th)/th^2 and their derivatives with respect to t=th^2"""
    small=t<LD(1e-3)
    ts=np.where(small,t,0); tb=np.where(small,1,t)
    def ser(f): 
        s=0
        for k in range(9,-1,-1): s=s*(ts if k<9 else 0)+f(k) if k<9 else f(9)+0*ts
        return s
    import math
    def a(k): return LD((-1)**k)/LD(math.factorial(2*k+1))
    def b(k): return LD((-1)**k)/LD(math.factorial(2*k+2))
    def horner(c):
        s=0*ts
        for x in c[::-1]: s=s*ts+x
        return s
    ca=[a(k) for k in range(10)]; cb=[b(k) for k in range(10)]
    A0=horner(ca); B0=horner(cb); dA0=horner([k*ca[k] for k in range(1,10)]); dB0=horner([k*cb[k] for k in range(1,10)])
    th=np.sqrt(tb); s,c=np.sin(th),np.cos(th)
    h=np.sin(th/2)
    A1=s/th; B1=2*h*h/tb
    dA1=(c-A1)/(2*tb); dB1=(A1/2-B1)/tb
    return [np.where(small,x,y) for x,y in ((A0,A1),(B0,B1),(dA0,dA1),(dB0,dB1))]
def R(r,grad=False):
    """rotation matrix; and dR/dr of shape (...,3,3,3), the last index being r's"""
    r=np.asarray(r,LD)
    t=sq(r); A,B,dA,dB=coeffs(t)
    K=skew(r); K2=K@K
    I=np.eye(3,dtype=LD)
    o=I+A[...,None,None]*K+B[...,None,None]*K2
    if not grad: return o
    g=[]
    for k in range(3):
        e=np.zeros(3,LD); e[k]=1; E=skew(e); dt=2*r[...,k]
        g.append((dA*dt)[...,None,None]*K+A[...,None,None]*E+(dB*dt)[...,None,None]*K2+B[...,None,None]*(E@K+K@E))
    return o,np.stack(g,-1)
def Rt(rt):
    rt=np.asarray(rt,LD)
    return np.concatenate((R(rt[...,:3]),rt[...,None,3:]),-2)
def inv_Rt(X):
    Rm=np.swapaxes(X[...,:3,:],-1,-2)
    return np.concatenate((Rm,-(Rm@X[...,3,:,None])[...,None,:,0]),-2)
def comp_Rt(a,b):
    Rm=a[...,:3,:]@b[...,:3,:]
    t=(a[...,:3,:]@b[...,3,:,None])[...,0]+a[...,3,:]
    return np.concatenate((Rm,t[...,None,:]),-2)
def apply_Rt(X,x): return (X[...,:3,:]@np.asarray(x,LD)[...,None])[...,0]+X[...,3,:]
PI=np.pi
AXES=np.array([(1,0,0),(0,1,0),(0,0,1),(-1,0,0),(0,-1,0),(0,0,-1),(1,1,1),(1,-2,.5),(-3,1,2),(.05,2,1),(.05,-2,1),(.05,.06,1),(-.05,.06,-1),(.05,-.06,1),(0,1,-1),(1,0,-1),(1e-4,-1e-4,1),(1e-9,1,-1e-9)],float)
AXES/=np.sqrt((AXES*AXES).sum(-1))[:,None]
MAGS=[0,1e-160,1e-12,4.9e-9,9.9e-9,1.01e-8,1.9e-8,2.1e-8,3e-7,9.9e-6,1.01e-5,1e-4,.01,.3,1.,PI/2-1e-9,PI/2,2.,3.,PI-1e-3,PI-1e-6,PI-1.2e-8,PI-5e-9,PI,PI+5e-9,PI+1e-6,PI+.01,4.,5.5,2*PI-1e-4,2*PI-1e-7,2*PI-1e-9,2*PI,2*PI+1e-9,2*PI+1e-4,7.,3*PI,4*PI,4*PI+.1,20.]
def rotations(axes=AXES,mags=MAGS):
    o=[np.zeros(3)]
    for m in mags:
        for a in axes:
            if m: o.append(a*m)
    return np.array(o)
TS=np.array([(0,0,0),(1.,-2,3),(-1e3,5e2,7e1),(1e-9,0,-1e-9)])
