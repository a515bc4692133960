"""Directions and pixels in the valid domain of each lens model"""
import numpy as np
import probs,ref
SIMPLE={'LENSMODEL_PINHOLE':'pinhole','LENSMODEL_STEREOGRAPHIC':'stereographic','LENSMODEL_LONLAT':'lonlat','LENSMODEL_LATLON':'latlon'}
def limit(model):
    """largest angle off the optical axis in the valid domain, degrees"""
    if 'SPLINED' in model: return min(ref.splined(model)[3]/2.*.97,178.)
    return {'LENSMODEL_PINHOLE':85.,'LENSMODEL_STEREOGRAPHIC':170.,'LENSMODEL_LONLAT':179.,'LENSMODEL_LATLON':179.,
            'LENSMODEL_CAHVOR':40.}.get(model,35.)
SPLINES=['LENSMODEL_SPLINED_STEREOGRAPHIC_order=%d_Nx=%d_Ny=%d_fov_x_deg=%d'%t for t in
         ((2,3,3,60),(2,4,3,100),(2,5,8,40),(2,11,9,170),(3,4,4,80),(3,5,4,100),(3,4,6,30),(3,12,10,160),(3,7,5,200),(2,6,5,190))]
ALL=probs.MODELS+[s for s in SPLINES if s not in probs.MODELS]
def intrinsics(model,i):
    """the i-th set of parameters. 0: no distortion"""
    n=ref.nparams(model)
    c=[(600.,610.,499.5,399.5),(1234.5,1180.,612.,377.),(350.,420.,-20.,900.),(80.,75.,0.,0.)][i%4]
    if model in probs.KW: k=np.array(probs.KW[model])
    else: k=.02*np.cos(1+np.arange(n-4)*1.7)
    k=k*(0.,1.,-.4,.6)[i%4]
    # the splined surface has to stay invertible
    return np.r_[c,k]
def directions(model,dense=1):
    L=limit(model)
    th=np.radians(np.r_[1e-7,1e-3,np.linspace(0.01,1,8+4*dense)*L])
    ph=np.radians(np.r_[np.arange(0,360,45./dense),np.arange(7,360,60./dense)])
    T,P=[x.ravel() for x in np.meshgrid(th,ph)]
    v=np.stack((np.sin(T)*np.cos(P),np.sin(T)*np.sin(P),np.cos(T)),-1)
    v=np.vstack(((0,0,1.),v))
    if model=='LENSMODEL_LONLAT': v=v[np.abs(v[:,1])<.9999]; v=v[~((np.abs(v[:,0])<1e-9)&(v[:,2]<0))]
    if model=='LENSMODEL_LATLON': v=v[np.abs(v[:,0])<.9999]; v=v[~((np.abs(v[:,1])<1e-9)&(v[:,2]<0))]
    if 'SPLINED' in model:
        o,Nx,Ny,fov=ref.splined(model)
        # the vertical field of view is proportional
        s=ref.seg_per_u((o,Nx,Ny,fov)); m=(1 if o==2 else 2)
        lim=(Ny-1-m)/2./s
        uy=2*v[:,1]/(1+v[:,2]); v=v[np.abs(uy)<=lim]
    return v
