/* The operations that are interleaved by sched.c. Not instrumented. No writable globals: everything
   that an operation needs or produces lives in its ctx_t */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include <suitesparse/cholmod.h>
#include "mrcal.h"
#include "poseutils.h"
#include "triangulation.h"
#include "stereo.h"
#include "image.h"
#include "ops.h"

static const char* const MODELS[]={
 "LENSMODEL_PINHOLE","LENSMODEL_STEREOGRAPHIC","LENSMODEL_LONLAT","LENSMODEL_LATLON",
 "LENSMODEL_OPENCV4","LENSMODEL_OPENCV5","LENSMODEL_OPENCV8","LENSMODEL_OPENCV12","LENSMODEL_CAHVOR",
 "LENSMODEL_CAHVORE_linearity=0.37",
 "LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=6_Ny=5_fov_x_deg=120",
 "LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=6_Ny=5_fov_x_deg=120"};
/* the second variant of each operation uses a different configuration if the model has one */
static const char* const MODELSB[]={
 "LENSMODEL_PINHOLE","LENSMODEL_STEREOGRAPHIC","LENSMODEL_LONLAT","LENSMODEL_LATLON",
 "LENSMODEL_OPENCV4","LENSMODEL_OPENCV5","LENSMODEL_OPENCV8","LENSMODEL_OPENCV12","LENSMODEL_CAHVOR",
 "LENSMODEL_CAHVORE_linearity=0.12",
 "LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=5_Ny=6_fov_x_deg=100",
 "LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=5_Ny=6_fov_x_deg=100"};
#define NM 12
enum { PROJECT=0, UNPROJECT=PROJECT+NM, POSE=UNPROJECT+NM, 
       TRI=POSE+9, NAMES=TRI+6, PARSE, WRITE, READ, IMSAVE, IMLOAD, LINKS, INDEX, PACK,
       RECTSYS, RECTRES, RECTMAPS, RANGE, CALLBACK_B, CALLBACK_S, CALLBACK_P, CALLBACK_T, OPTIMIZE, DRT, NOPS };
static const char* const POSEN[]={"compose_rt","compose_r","Rt","invert","rt_Rt","rotate_point","transform_point","procrustes","tiny"};
static const char* const TRIN[]={"geometric","lindstrom","leecivera_l1","leecivera_linf","leecivera_mid2","leecivera_wmid2"};
static const char* const REST[]={"lensmodel names","parse a model","write a model","read a model","save an image","load an image","traverse_sensor_links","index functions","pack/unpack",
 "rectified_system","rectified_resolution","rectification_maps","stereo_range","optimizer_callback(boards,points)","optimizer_callback(splined)","optimizer_callback(points)","optimizer_callback(triangulated)","optimize","drt_cross_reprojection"};

struct ctx { int op,v; unsigned char* out; size_t nout,cap; double* d; void* p[8]; char path[256]; char text[4096]; unsigned long rng; };
static double rnd(ctx_t* c){ c->rng=c->rng*6364136223846793005UL+1442695040888963407UL; return (double)(c->rng>>11)/9007199254740992.; }
static void fill(ctx_t* c,double* d,int n,double s){ for(int i=0;i<n;i++) d[i]=s*(2*rnd(c)-1); }
static void* reserve(ctx_t* c,size_t n){ if(c->nout+n>c->cap) abort(); void* p=c->out+c->nout; c->nout+=(n+15)&~15UL; return p; }
#define D(n) ((double*)reserve(c,(n)*sizeof(double)))
#define P3(n) ((mrcal_point3_t*)D(3*(n)))
#define P2(n) ((mrcal_point2_t*)D(2*(n)))
static void num(ctx_t* c,double x){ *D(1)=x; }
int ops_n(void){ return NOPS; }
void ops_name(int op,char* s,int n)
{
    if(op<UNPROJECT) snprintf(s,n,"project %s",MODELS[op-PROJECT]+10);
    else if(op<POSE) snprintf(s,n,"unproject %s",MODELS[op-UNPROJECT]+10);
    else if(op<TRI) snprintf(s,n,"pose %s",POSEN[op-POSE]);
    else if(op<NAMES) snprintf(s,n,"triangulate_%s",TRIN[op-TRI]);
    else snprintf(s,n,"%s",REST[op-NAMES]);
}
static int model(ctx_t* c,int m,mrcal_lensmodel_t* l,double* intr)
{
    if(!mrcal_lensmodel_from_name(l,(c->v?MODELSB:MODELS)[m])) abort();
    int n=mrcal_lensmodel_num_params(l);
    double core[4]={900+50*c->v,905+30*c->v,500+3*c->v,400-7*c->v};
    if(m==2||m==3) core[0]=300+10*c->v,core[1]=310;
    memcpy(intr,core,sizeof(core));
    for(int i=4;i<n;i++) intr[i]=(m>=10?.02:.01)*(2*rnd(c)-1);
    if(m==9) for(int i=n-3;i<n;i++) intr[i]=0;   /* unproject() supports E=0 only */
    return n;
}
static const char* const CAM="{'lensmodel':'LENSMODEL_CAHVORE_linearity=0.%d','intrinsics':[1000.%d,1001.5,500.25,%d,0.01,-0.0%d,0.02,0.001,0.002,0.003,0.01,0.02],'extrinsics':[0.1,0.%d,-0.3,1,2,3.%d],'imagersize':[1000,%d]}\n";
/* a small problem */
typedef struct {
    int Nci,Nce,Nf,Np,Npf,Nob,Nop,Nt; mrcal_lensmodel_t lm; int nintr; double* intr; mrcal_pose_t ce[4],fr[4]; mrcal_point3_t pt[6]; mrcal_calobject_warp_t warp;
    mrcal_observation_board_t ob[12]; mrcal_observation_point_t op[24]; mrcal_observation_point_triangulated_t ot[24];
    mrcal_point3_t bp[12*9],pp[24]; int imsz[4]; mrcal_problem_selections_t sel; mrcal_problem_constants_t k; int W,H; double sp; int Nstate,Nmeas;
} prob_t;
static prob_t* problem(ctx_t* c,int kind)
{
    prob_t* p=calloc(1,sizeof(*p));
    p->Nci=2; p->Nce=1; p->W=p->H=3; p->sp=.1;
    p->intr=malloc(2*200*sizeof(double));
    int m= kind==CALLBACK_S?10:kind==CALLBACK_T?4:4;
    p->nintr=model(c,m,&p->lm,p->intr); model(c,m,&p->lm,p->intr+p->nintr);
    for(int i=0;i<4;i++) p->imsz[i]=i&1?800:1000;

    fill(c,p->ce[0].r.xyz,3,.02); p->ce[0].t=(mrcal_point3_t){.x=-.3,.y=.01,.z=.02};
    p->warp.x2=.001; p->warp.y2=-.002;
    p->sel.do_optimize_extrinsics=true;
    int boards= kind==CALLBACK_B||kind==CALLBACK_S||kind==OPTIMIZE||kind==DRT||kind==INDEX||kind==PACK;
    int points= kind==CALLBACK_B||kind==CALLBACK_P||kind==INDEX||kind==PACK;
    if(kind!=CALLBACK_T) { p->sel.do_optimize_frames=true; p->sel.do_optimize_intrinsics_core=(kind!=CALLBACK_S); p->sel.do_optimize_intrinsics_distortions=true; p->sel.do_apply_regularization=true; }
    if(boards)
    {
        p->sel.do_optimize_calobject_warp=true; p->Nf=3;
        for(int f=0;f<p->Nf;f++)
        {
            fill(c,p->fr[f].r.xyz,3,.3); p->fr[f].t=(mrcal_point3_t){.x=-.1*f,.y=-.1,.z=1.5+.2*f};
            for(int k=0;k<2;k++) { p->ob[p->Nob].icam.intrinsics=k; p->ob[p->Nob].icam.extrinsics=k-1; p->ob[p->Nob].iframe=f;
                for(int i=0;i<9;i++)
                {
                    double x[3],y[3],obj[3]={(i%3)*p->sp,(i/3)*p->sp,0};
                    mrcal_transform_point_rt(x,NULL,NULL,(double*)&p->fr[f],obj);
                    if(k) { mrcal_transform_point_rt(y,NULL,NULL,(double*)&p->ce[0],x); memcpy(x,y,sizeof(x)); }
                    mrcal_point2_t q; mrcal_project(&q,NULL,NULL,(mrcal_point3_t*)x,1,&p->lm,p->intr+k*p->nintr);
                    p->bp[p->Nob*9+i]=(mrcal_point3_t){.x=q.x+.2*(rnd(c)-.5),.y=q.y+.2*(rnd(c)-.5),.z=(f==1&&i==4)?-1.:1.};
                }
                p->Nob++; }
        }
    }
    if(points)
    {
        p->Np=4; p->Npf=1;
        for(int i=0;i<4;i++) { p->pt[i]=(mrcal_point3_t){.x=-.3+.2*i,.y=.1*rnd(c),.z=2+rnd(c)};
            for(int k=0;k<2;k++) { p->op[p->Nop].icam.intrinsics=k; p->op[p->Nop].icam.extrinsics=k-1; p->op[p->Nop].i_point=i;
                p->pp[p->Nop]=(mrcal_point3_t){.x=500+100*rnd(c),.y=400+50*rnd(c),.z=1}; p->Nop++; } }
    }
    if(kind==CALLBACK_T)
        for(int i=0;i<3;i++) for(int k=0;k<2;k++)
        {
            mrcal_observation_point_triangulated_t* o=&p->ot[p->Nt++];
            o->icam.intrinsics=k; o->icam.extrinsics=k-1; o->last_in_set=k==1;
            double v[3]={.2*(rnd(c)-.5)-(k?.1:0),.2*(rnd(c)-.5),1}; memcpy(&o->px,v,sizeof(v)); 
            mrcal_point2_t q; mrcal_project(&q,NULL,NULL,(mrcal_point3_t*)v,1,&p->lm,p->intr+k*p->nintr); o->px=(mrcal_point3_t){.x=q.x,.y=q.y,.z=1};
        }
    p->Nstate=mrcal_num_states(p->Nci,p->Nce,p->Nf,p->Np,p->Npf,p->Nob,p->sel,&p->lm);
    p->Nmeas=mrcal_num_measurements(p->Nob,p->Nop,p->ot,p->Nt,p->W,p->H,p->Nci,p->Nce,p->Nf,p->Np,p->Npf,p->sel,&p->lm);
    return p;
}
ctx_t* ops_setup(int op,int v)
{
    ctx_t* c=calloc(1,sizeof(*c)); c->op=op; c->v=v; c->cap= op>=CALLBACK_B?1<<18:1<<14; c->out=malloc(c->cap); c->rng=12345+1000*op+77777*v;
    for(int i=0;i<20;i++) rnd(c);
    c->d=malloc(sizeof(double)*1024); fill(c,c->d,1024,1.);
    snprintf(c->path,sizeof(c->path),"%s/%d.%d.%s",ops_dir(),op,v,op==IMSAVE||op==IMLOAD?"png":"cameramodel");
    snprintf(c->text,sizeof(c->text),CAM,v+1,v+1,400+v,v+1,v+2,v+3,800+v);
    if(op>=CALLBACK_B||op==INDEX||op==PACK) c->p[0]=problem(c,op);
    if(op==READ) { FILE* f=fopen(c->path,"w"); fputs(c->text,f); fclose(f); }
    if(op==WRITE) { c->p[0]=mrcal_read_cameramodel_string(c->text,0); if(!c->p[0]) abort(); }
    if(op==IMSAVE||op==IMLOAD)
    {
        unsigned char* b=malloc(7*5*3); for(int i=0;i<105;i++) b[i]=i*37+v*91+op; c->p[1]=b;
        if(op==IMLOAD) { mrcal_image_bgr_t im={.width=7,.height=5,.stride=21,.data=(void*)b}; if(!mrcal_image_bgr_save(c->path,&im)) abort(); }
    }
    return c;
}
static void slurp(ctx_t* c){ FILE* f=fopen(c->path,"rb"); if(!f) { num(c,-1); return; } char* b=reserve(c,8192); size_t n=fread(b,1,8192,f); num(c,n); fclose(f); }
static bool link_cb(const uint16_t to,const uint16_t from,void* cookie){ ctx_t* c=cookie; num(c,to); num(c,from); ops_yield(); return true; }
static void cb_links(ctx_t* c,uint16_t n)
{
    uint16_t m[64]; int k=0; unsigned long r=c->rng;
    for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) { r=r*6364136223846793005UL+1442695040888963407UL; m[k++]= (r>>40)%3==0?0:(r>>33)&0xffff; }
    num(c,mrcal_traverse_sensor_links(n,m,link_cb,c));
}
void ops_run(ctx_t* c)
{
    int op=c->op; const double* d=c->d;
    memset(c->out,0x5A,c->cap); c->nout=0;
    if(op<POSE)
    {
        mrcal_lensmodel_t l; double intr[512]; unsigned long s=c->rng; 
        int n=model(c,op<UNPROJECT?op:op-UNPROJECT,&l,intr); c->rng=s;
        if(op<UNPROJECT)
        {
            mrcal_point3_t p[2]; for(int i=0;i<2;i++) p[i]=(mrcal_point3_t){.x=.4*d[3*i],.y=.4*d[3*i+1],.z=1+.2*d[3*i+2]};
            num(c,mrcal_project(P2(2),P3(4),D(2*2*n),p,2,&l,intr));
            num(c,mrcal_project(P2(2),NULL,NULL,p,2,&l,intr));
        }
        else
        {
            mrcal_point2_t q[2]; for(int i=0;i<2;i++) q[i]=(mrcal_point2_t){.x=500+90*d[2*i],.y=400+90*d[2*i+1]};
            num(c,mrcal_unproject(P3(2),q,2,&l,intr));
        }
        return;
    }
    if(op>=TRI && op<NAMES)
    {
        mrcal_point3_t v0={.x=.3*d[0],.y=.3*d[1],.z=1},t={.x=1+.2*d[2],.y=.2*d[3],.z=.2*d[4]},v1;
        double z=4+d[5]; for(int i=0;i<3;i++) v1.xyz[i]=v0.xyz[i]*z-t.xyz[i]+.01*d[6+i];
        mrcal_point3_t Rt[4]={}; mrcal_R_from_r((double*)Rt,NULL,d+10); Rt[3]=t;
        mrcal_point3_t* o=P3(1);
        switch(op-TRI) {
        case 0: *o=mrcal_triangulate_geometric(P3(3),P3(3),P3(3),&v0,&v1,&t); break;
        case 1: { mrcal_point3_t w; mrcal_rotate_point_R_inverted(w.xyz,NULL,NULL,(double*)Rt,v1.xyz); *o=mrcal_triangulate_lindstrom(P3(3),P3(3),P3(12),&v0,&w,Rt); } break;
        case 2: *o=mrcal_triangulate_leecivera_l1(P3(3),P3(3),P3(3),&v0,&v1,&t); break;
        case 3: *o=mrcal_triangulate_leecivera_linf(P3(3),P3(3),P3(3),&v0,&v1,&t); break;
        case 4: *o=mrcal_triangulate_leecivera_mid2(P3(3),P3(3),P3(3),&v0,&v1,&t); break;
        case 5: *o=mrcal_triangulate_leecivera_wmid2(P3(3),P3(3),P3(3),&v0,&v1,&t); break; }
        return;
    }
    switch(op) {
    case POSE+0: 
        mrcal_compose_rt(D(6),D(9),D(9),D(9),D(9),d,d+6);
        mrcal_compose_rt_inverted0(D(6),D(9),D(9),D(9),D(9),D(9),D(9),d,d+6);
        mrcal_compose_rt_inverted1(D(6),D(9),D(9),D(9),D(9),D(9),D(9),d,d+6);
        mrcal_compose_rt_inverted01(D(6),D(9),D(9),D(9),D(9),D(9),D(9),d,d+6);
        break;
    case POSE+1: mrcal_compose_r(D(3),D(9),D(9),d,d+3); mrcal_compose_r_inverted0(D(3),D(9),D(9),d,d+3); mrcal_compose_r_inverted1(D(3),D(9),D(9),d,d+3); mrcal_compose_r_inverted01(D(3),D(9),D(9),d,d+3); break;
    case POSE+2: { double A[12],B[12]; mrcal_Rt_from_rt(A,NULL,d); mrcal_Rt_from_rt(B,NULL,d+6);
        mrcal_compose_Rt(D(12),A,B); mrcal_compose_Rt_inverted0(D(12),A,B); mrcal_compose_Rt_inverted1(D(12),A,B); mrcal_compose_Rt_inverted01(D(12),A,B); mrcal_invert_Rt(D(12),A); mrcal_invert_R(D(9),B);
        mrcal_invert_Rt(A,A); memcpy(D(12),A,sizeof(A)); } break;
    case POSE+3: { mrcal_invert_rt(D(6),D(9),D(9),d); double a[6]; memcpy(a,d+6,sizeof(a)); mrcal_invert_rt(a,D(9),D(9),a); memcpy(D(6),a,sizeof(a)); } break;
    case POSE+4: { double* R=D(9),*Rt=D(12); mrcal_R_from_r(R,D(27),d); mrcal_r_from_R(D(3),D(27),R); mrcal_Rt_from_rt(Rt,D(27),d+6); mrcal_rt_from_Rt(D(6),D(27),Rt); 
        double near[9]={-1,1e-9,0,1e-9,-1,0,0,0,1}; mrcal_r_from_R(D(3),D(27),near); } break;
    case POSE+5: { double R[9]; mrcal_R_from_r(R,NULL,d); mrcal_rotate_point_R(D(3),D(27),D(9),R,d+6); mrcal_rotate_point_R_inverted(D(3),D(27),D(9),R,d+6); mrcal_rotate_point_r(D(3),D(9),D(9),d,d+6); mrcal_rotate_point_r_inverted(D(3),D(9),D(9),d,d+6); } break;
    case POSE+6: { double R[12]; mrcal_Rt_from_rt(R,NULL,d); mrcal_transform_point_Rt(D(3),D(36),D(9),R,d+6); mrcal_transform_point_Rt_inverted(D(3),D(36),D(9),R,d+6); mrcal_transform_point_rt(D(3),D(18),D(9),d,d+6); mrcal_transform_point_rt_inverted(D(3),D(18),D(9),d,d+6); } break;
    case POSE+7: { double p0[15],p1[15],v0[15],v1[15]; memcpy(p0,d,sizeof(p0)); 
        for(int i=0;i<5;i++) { mrcal_transform_point_rt_inverted(p1+3*i,NULL,NULL,d+20,p0+3*i); mrcal_rotate_point_r_inverted(v1+3*i,NULL,NULL,d+20,p0+3*i); double n=sqrt(p0[3*i]*p0[3*i]+p0[3*i+1]*p0[3*i+1]+p0[3*i+2]*p0[3*i+2]); for(int j=0;j<3;j++) { v0[3*i+j]=p0[3*i+j]/n; v1[3*i+j]/=n; } }
        num(c,mrcal_align_procrustes_points_Rt01(D(12),5,p0,p1,NULL)); num(c,mrcal_align_procrustes_vectors_R01(D(9),5,v0,v1,NULL)); mrcal_R_aligned_to_vector(D(9),d+3); } break;
    case POSE+8: mrcal_compose_r_tinyr0_gradientr0(D(9),d); mrcal_compose_r_tinyr1_gradientr1(D(9),d); { double t[3]={d[0]*1e-9,d[1]*1e-9,0}; mrcal_R_from_r(D(9),D(27),t); mrcal_compose_r(D(3),D(9),D(9),t,d+3); mrcal_rotate_point_r(D(3),D(9),D(9),t,d+3); } break;
    case NAMES:
        for(int m=4;m<NM;m+=1) { mrcal_lensmodel_t l; num(c,mrcal_lensmodel_from_name(&l,(c->v?MODELSB:MODELS)[m])); char* s=reserve(c,128); num(c,mrcal_lensmodel_name(s,128,&l)); mrcal_lensmodel_metadata_t md=mrcal_lensmodel_metadata(&l); num(c,md.has_core+2*md.can_project_behind_camera+4*md.has_gradients+8*md.noncentral); num(c,mrcal_lensmodel_num_params(&l));
            const char* u=mrcal_lensmodel_name_unconfigured(&l); strcpy(reserve(c,128),u); num(c,mrcal_lensmodel_type_from_name(u)); if(m>=10) num(c,mrcal_knots_for_splined_models(D(8),D(8),&l)); }
        break;
    case PARSE: case READ: { mrcal_cameramodel_VOID_t* m=op==PARSE?mrcal_read_cameramodel_string(c->text,strlen(c->text)):mrcal_read_cameramodel_file(c->path); num(c,m!=NULL); if(m) { memcpy(D(6),m->rt_cam_ref,48); num(c,m->imagersize[1]); num(c,m->lensmodel.type); num(c,m->lensmodel.LENSMODEL_CAHVORE__config.linearity); memcpy(D(12),m->intrinsics,96); mrcal_free_cameramodel(&m); } } break;
    case WRITE: num(c,mrcal_write_cameramodel_file(c->path,c->p[0])); slurp(c); break;
    case IMSAVE: { mrcal_image_bgr_t im={.width=7,.height=5,.stride=21,.data=c->p[1]}; num(c,mrcal_image_bgr_save(c->path,&im)); slurp(c); } break;
    case IMLOAD: { mrcal_image_bgr_t im={}; num(c,mrcal_image_bgr_load(&im,c->path)); if(im.data) { for(int i=0;i<im.height;i++) memcpy(reserve(c,21),(char*)im.data+i*im.stride,21); free(im.data); } } break;
    case LINKS: cb_links(c,6); break;
    case INDEX: { prob_t* p=c->p[0]; 
#define ST p->Nci,p->Nce,p->Nf,p->Np,p->Npf,p->Nob,p->sel,&p->lm
        num(c,mrcal_num_states(ST)); for(int i=0;i<3;i++) { num(c,mrcal_state_index_intrinsics(i,ST)); num(c,mrcal_state_index_extrinsics(i,ST)); num(c,mrcal_state_index_frames(i,ST)); num(c,mrcal_state_index_points(i,ST)); num(c,mrcal_measurement_index_boards(i,p->Nob,p->Nop,p->W,p->H)); num(c,mrcal_measurement_index_points(i,p->Nob,p->Nop,p->W,p->H)); }
        num(c,mrcal_state_index_calobject_warp(ST)); num(c,p->Nmeas); num(c,mrcal_measurement_index_regularization(p->ot,p->Nt,p->W,p->H,p->Nci,p->Nce,p->Nf,p->Np,p->Npf,p->Nob,p->Nop,p->sel,&p->lm));
        mrcal_camera_index_t ic[2]={{0,-1},{1,0}}; int ie=-9; num(c,mrcal_corresponding_icam_extrinsics(&ie,1,p->Nci,p->Nce,p->Nob,p->ob,p->Nop,p->op)); num(c,ie); } break;
    case PACK: { prob_t* p=c->p[0]; double* b=D(p->Nstate); for(int i=0;i<p->Nstate;i++) b[i]=d[i]; mrcal_pack_solver_state_vector(b,ST); double* e=D(p->Nstate); memcpy(e,b,p->Nstate*8); mrcal_unpack_solver_state_vector(e,ST); } break;
    case RECTSYS: { mrcal_lensmodel_t l; double intr[64]; unsigned long s=c->rng; model(c,4,&l,intr); c->rng=s;
        for(int k=0;k<2;k++) { unsigned int* sz=reserve(c,8); double* pa=D(1),*pe=D(1); *pa=*pe=-.2; mrcal_point2_t* f=P2(1),*a=P2(1); *f=(mrcal_point2_t){.x=40+c->v,.y=30}; *a=(mrcal_point2_t){.x=1+c->v,.y=2};
            double c0[6]={.01*d[0],.01*d[1],.01*d[2],0,0,0},c1[6]={.01*d[3],.01*d[4],0,-1,.01*d[5],.01};
            num(c,mrcal_rectified_system2(sz,D(4),D(6),D(1),pa,pe,f,a,10.,&l,intr,c0,c1,k?MRCAL_LENSMODEL_LATLON:MRCAL_LENSMODEL_PINHOLE,k,0,0,0)); } } break;
    case RECTRES: { mrcal_lensmodel_t l; double intr[64],R[9]; unsigned long s=c->rng; model(c,4,&l,intr); c->rng=s; double r[3]={.1*d[0],.1*d[1],.1*d[2]}; mrcal_R_from_r(R,NULL,r); double* pa=D(1),*pe=D(1); *pa=*pe=-1; mrcal_point2_t f={.x=40,.y=30},a={.x=d[4],.y=d[5]}; num(c,mrcal_rectified_resolution(pa,pe,&l,intr,&f,&a,R,MRCAL_LENSMODEL_LATLON)); } break;
    case RECTMAPS: { mrcal_lensmodel_t l,l1; double intr[64],intr1[512]; unsigned long s=c->rng; model(c,4,&l,intr); model(c,10,&l1,intr1); c->rng=s; double fx[4]={30,31,1,1}; unsigned sz[2]={3,2}; double r[9]; for(int i=0;i<9;i++) r[i]=.05*d[i]; num(c,mrcal_rectification_maps(reserve(c,2*2*3*2*4),&l,intr,r,&l1,intr1,r+3,c->v?MRCAL_LENSMODEL_LATLON:MRCAL_LENSMODEL_PINHOLE,fx,sz,r+6)); } break;
    case RANGE: { double fx[4]={300+10*c->v,310,10,9}; double dis[3]={3+d[0],5+d[1],7+d[2]}; mrcal_point2_t q[3]; for(int i=0;i<6;i++) q[i/2].xy[i&1]=10+5*d[10+i]; num(c,mrcal_stereo_range_sparse(D(3),dis,q,3,0,100,c->v?MRCAL_LENSMODEL_LATLON:MRCAL_LENSMODEL_PINHOLE,fx,1.+d[7]*.1));
        uint16_t di[6]; for(int i=0;i<6;i++) di[i]=20+i*7+c->v*100; mrcal_image_uint16_t id={.width=3,.height=2,.stride=6,.data=di}; mrcal_image_double_t r={.width=3,.height=2,.stride=24,.data=D(6)}; num(c,mrcal_stereo_range_dense(&r,&id,16,1,1000,c->v?MRCAL_LENSMODEL_LATLON:MRCAL_LENSMODEL_PINHOLE,fx,1.+d[7]*.1)); } break;
    case CALLBACK_B: case CALLBACK_S: case CALLBACK_P: case CALLBACK_T: case DRT: { prob_t* p=c->p[0];
        int nnz=64*p->Nmeas;
        cholmod_sparse Jt={.nrow=p->Nstate,.ncol=p->Nmeas,.nzmax=nnz,.p=reserve(c,4*(p->Nmeas+1)),.i=reserve(c,4*nnz),.x=D(nnz),.stype=0,.itype=CHOLMOD_INT,.xtype=CHOLMOD_REAL,.dtype=CHOLMOD_DOUBLE,.sorted=1,.packed=1};
        double* b=D(p->Nstate);
        num(c,mrcal_optimizer_callback(b,p->Nstate*8,D(p->Nmeas),p->Nmeas*8,&Jt,p->intr,p->ce,p->fr,p->pt,&p->warp,p->Nci,p->Nce,p->Nf,p->Np,p->Npf,p->ob,p->op,p->Nob,p->Nop,p->Nt?p->ot:NULL,p->Nt,p->bp,p->pp,&p->lm,p->imsz,p->sel,&p->k,p->sp,p->W,p->H,false));
        if(op==DRT) num(c,_mrcal_drt_cross_reprojection__dbpacked(NULL,0,0,D(6*6*p->Nf),0,0,NULL,0,0,D(12),0,0,-1,b,p->Nstate*8,&Jt,p->Nci,p->Nce,p->Nf,p->Np,p->Npf,p->Nob,p->Nop,&p->lm,p->sel,p->W,p->H)); } break;
    case OPTIMIZE: { prob_t q=*(prob_t*)c->p[0]; double intr[64]; memcpy(intr,q.intr,2*q.nintr*8); q.intr=intr;
        mrcal_stats_t s=mrcal_optimize(D(q.Nstate),q.Nstate*8,D(q.Nmeas),q.Nmeas*8,q.intr,q.ce,q.fr,q.pt,&q.warp,q.Nci,q.Nce,q.Nf,q.Np,q.Npf,q.ob,q.op,q.Nob,q.Nop,NULL,0,q.bp,q.pp,&q.lm,q.imsz,q.sel,&q.k,q.sp,q.W,q.H,false,false);
        num(c,s.rms_reproj_error__pixels); memcpy(D(2*q.nintr),intr,2*q.nintr*8); memcpy(D(6),q.ce,48); memcpy(D(6*q.Nf),q.fr,48*q.Nf); memcpy(D(3*9*q.Nob),q.bp,24*9*q.Nob); } break;
    }
}
void ops_result(ctx_t* c,void** p,size_t* n){ *p=c->out; *n=c->nout; }
