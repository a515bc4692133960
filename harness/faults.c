// Fails the n-th file operation or allocation of one operation of the C library, for every n, each in a
// process of its own. Prints one line per violation, and counts.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <dirent.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include "mrcal.h"
#include "image.h"
enum { ALLOC, OPEN, READ, WRITE, SEEK, CLOSE, STAT, MMAP, NKINDS };
static const char* KIND[]={"allocation","open","read","write","seek","close","stat","mmap"};
static volatile int armed,fault_kind,fault_n,fault_sticky,count[NKINDS],fired,unbuffered,fired_kind_close_of_write;
static long live,live_maps;
static int hit(int k)
{
    if(!armed) return 0;
    int c=count[k]++;
    if(k!=fault_kind) return 0;
    if(c==fault_n || (fault_sticky && c>fault_n)) { fired++; return 1; }
    return 0;
}
extern void* __libc_malloc(size_t); extern void __libc_free(void*); extern void* __libc_calloc(size_t,size_t); extern void* __libc_realloc(void*,size_t); extern void* __libc_memalign(size_t,size_t);
// live allocations made while armed
#define NT 4096
static void *tp[NT],*tc[NT];
static void add(void* p,void* c){ if(armed&&p) { for(int i=0;i<NT;i++) if(!tp[i]) { tp[i]=p; tc[i]=c; live++; return; } } }
static void del(void* p){ if(live&&p) for(int i=0;i<NT;i++) if(tp[i]==p) { tp[i]=NULL; live--; return; } }
static const char* leaked(void){ static char b[300]; for(int i=0;i<NT;i++) if(tp[i]) { Dl_info d; if(dladdr(tc[i],&d)) snprintf(b,sizeof(b),"%s(%s)",d.dli_fname?d.dli_fname:"?",d.dli_sname?d.dli_sname:"?"); return b; } return ""; }
// the image decoder libstb doesn't check its own allocations: not a matter of this library
static char *stb0,*stb1;
static int nofault(void* c){ return (char*)c>=stb0 && (char*)c<stb1; }
#define CALLER __builtin_return_address(0)
#define HIT (!nofault(CALLER) && hit(ALLOC))
void* malloc(size_t n){ if(HIT){errno=ENOMEM; return NULL;} void* p=__libc_malloc(n); add(p,CALLER); return p; }
void* calloc(size_t a,size_t b){ if(HIT){errno=ENOMEM; return NULL;} void* p=__libc_calloc(a,b); add(p,CALLER); return p; }
void* realloc(void* q,size_t n){ if(HIT){errno=ENOMEM; return NULL;} void* p=__libc_realloc(q,n); if(p||!n) del(q); if(n) add(p,CALLER); return p; }
void free(void* p){ del(p); __libc_free(p); }
int posix_memalign(void** o,size_t a,size_t n){ if(HIT) return ENOMEM; void* p=__libc_memalign(a,n); if(!p) return ENOMEM; add(p,CALLER); *o=p; return 0; }
void* aligned_alloc(size_t a,size_t n){ if(HIT){errno=ENOMEM; return NULL;} void* p=__libc_memalign(a,n); add(p,CALLER); return p; }
void* memalign(size_t a,size_t n){ if(HIT){errno=ENOMEM; return NULL;} void* p=__libc_memalign(a,n); add(p,CALLER); return p; }
static void find_stb(void)
{
    FILE* f=fopen("/proc/self/maps","r"); char l[1000]; unsigned long a,b;
    while(fgets(l,sizeof(l),f)) if(strstr(l,"libstb") && 2==sscanf(l,"%lx-%lx",&a,&b)) { if(!stb0) stb0=(char*)a; stb1=(char*)b; }
    fclose(f);
}
typedef struct { int fd; int w; } cookie_t;
static ssize_t c_read(void* c,char* b,size_t n){ if(hit(READ)){errno=EIO; return -1;} return read(((cookie_t*)c)->fd,b,n); }
static ssize_t c_write(void* c,const char* b,size_t n)
{
    if(hit(WRITE))
    {
        errno=ENOSPC;
        if(fault_sticky==2 && n>1) { size_t h=n/2; if((ssize_t)h!=write(((cookie_t*)c)->fd,b,h)) return 0; return h; }
        return 0;
    }
    return write(((cookie_t*)c)->fd,b,n);
}
static int c_seek(void* c,off64_t* o,int w){ if(hit(SEEK)){errno=EIO; return -1;} off_t r=lseek(((cookie_t*)c)->fd,*o,w); if(r<0) return -1; *o=r; return 0; }
static int (*real_close)(int);
static int c_close(void* c)
{
    cookie_t* k=c; int w=k->w;
    real_close(k->fd); __libc_free(k);
    if(hit(CLOSE)) { errno=EIO; if(w) fired_kind_close_of_write=1; return -1; }
    return 0;
}
static FILE* (*real_fopen)(const char*,const char*);
static int (*real_open)(const char*,int,...);
FILE* fopen(const char* name,const char* mode)
{
    if(!real_fopen) real_fopen=dlsym(RTLD_NEXT,"fopen");
    if(!armed) return real_fopen(name,mode);
    if(hit(OPEN)) { errno=EMFILE; return NULL; }
    int w=strchr(mode,'w')!=NULL;
    int fd=real_open(name,w?(O_WRONLY|O_CREAT|O_TRUNC):O_RDONLY,0600);
    if(fd<0) return NULL;
    cookie_t* k=__libc_malloc(sizeof(*k)); k->fd=fd; k->w=w;
    cookie_io_functions_t f={c_read,c_write,c_seek,c_close};
    FILE* fp=fopencookie(k,mode,f);
    if(!fp) { real_close(fd); __libc_free(k); return NULL; }
    if(unbuffered) setvbuf(fp,NULL,_IONBF,0);
    return fp;
}
FILE* fopen64(const char* n,const char* m){ return fopen(n,m); }
int open(const char* name,int flags,...)
{
    va_list ap; va_start(ap,flags); int mode=(flags&O_CREAT)?va_arg(ap,int):0; va_end(ap);
    if(!real_open) real_open=dlsym(RTLD_NEXT,"open");
    if(hit(OPEN)) { errno=EMFILE; return -1; }
    return real_open(name,flags,mode);
}
int open64(const char* name,int flags,...){ va_list ap; va_start(ap,flags); int mode=(flags&O_CREAT)?va_arg(ap,int):0; va_end(ap); return open(name,flags,mode); }
int close(int fd)
{
    if(!real_close) real_close=dlsym(RTLD_NEXT,"close");
    int r=real_close(fd);
    if(hit(CLOSE)) { errno=EIO; return -1; }
    return r;
}
static int (*real_fstat)(int,struct stat*);
int fstat(int fd,struct stat* s){ if(!real_fstat) real_fstat=dlsym(RTLD_NEXT,"fstat"); if(hit(STAT)){errno=EIO; return -1;} return real_fstat(fd,s); }
static void* (*real_mmap)(void*,size_t,int,int,int,off_t);
static int (*real_munmap)(void*,size_t);
static size_t pages(size_t n){ return (n+4095)/4096; }
void* mmap(void* a,size_t n,int p,int f,int fd,off_t o)
{
    if(!real_mmap) real_mmap=dlsym(RTLD_NEXT,"mmap");
    if(hit(MMAP)) { errno=ENOMEM; return MAP_FAILED; }
    void* r=real_mmap(a,n,p,f,fd,o);
    if(armed && r!=MAP_FAILED && !(f&MAP_FIXED)) live_maps+=pages(n);
    return r;
}
int munmap(void* a,size_t n){ if(!real_munmap) real_munmap=dlsym(RTLD_NEXT,"munmap"); if(armed) live_maps-=pages(n); return real_munmap(a,n); }

static int nfds(void){ int n=0; DIR* d=opendir("/proc/self/fd"); while(readdir(d)) n++; closedir(d); return n; }
static const char* dir; static char path[4096];
static char text[20000];
static uint8_t pix[64*64*3+64];
#define W 13
#define HH 9
typedef struct { int ok; size_t n; uint8_t* d; } result_t; // what the operation made
static void res(result_t* r,const void* p,size_t n){ int a=armed; armed=0; r->d=realloc(r->d,r->n+n+1); memcpy(r->d+r->n,p,n); r->n+=n; armed=a; }
static void resmodel(result_t* r,const mrcal_cameramodel_VOID_t* m)
{ int N=mrcal_lensmodel_num_params(&m->lensmodel); res(r,m->rt_cam_ref,48); res(r,m->imagersize,8); res(r,m->intrinsics,8*N); }
static void resfile(result_t* r)
{
    int a=armed; armed=0; FILE* f=fopen(path,"rb");
    if(f) { int c; while((c=fgetc(f))!=EOF) { uint8_t b=c; res(r,&b,1); } fclose(f); }
    armed=a;
}
static char* slurp(const char* f,int* n){ FILE* fp=fopen(f,"rb"); char* s=__libc_malloc(1<<20); *n=fread(s,1,1<<20,fp); fclose(fp); return s; }
static mrcal_cameramodel_VOID_t* MODEL;
static char big[200000]; static int nbig;
typedef struct { mrcal_cameramodel_VOID_t m; double k[2000]; } buf_t;
static buf_t BUF;
static void image(mrcal_image_void_t* im,int bpp,int pad){ im->width=W; im->height=HH; im->stride=W*bpp/8+pad; im->data=(void*)pix; }
// operations. op: index
#define NSAVE 8
static const struct { const char* ext; int bpp; int pad; } SAVE[NSAVE]={{"a.png",8,0},{"a.png",16,0},{"a.png",24,0},{"a.jpg",8,0},{"a.jpg",24,6},{"a.pgm",8,3},{"a.pgm",16,2},{"a.ppm",24,0}};
static const int REQ[4]={8,16,24,0};
enum { OP_STRING, OP_STRINGN, OP_FILE, OP_INTO, OP_FILE_BIG, OP_FILE_INTO_BIG, OP_WRITE, OP_WRITE_BIG, OP_SAVE, OP_LOAD=OP_SAVE+NSAVE, NOPS=OP_LOAD+4*NSAVE };
static char opname[64];
static const char* name_of(int op)
{
    static const char* n[]={"read model string","read model string with length","read model file","read model string into","read big model file","read big model file into","write model","write big model"};
    if(op<OP_SAVE) return n[op];
    if(op<OP_LOAD) sprintf(opname,"save %s %dbit",SAVE[op-OP_SAVE].ext+2,SAVE[op-OP_SAVE].bpp);
    else sprintf(opname,"load %s %dbit as %d",SAVE[(op-OP_LOAD)/4].ext+2,SAVE[(op-OP_LOAD)/4].bpp,REQ[(op-OP_LOAD)%4]);
    return opname;
}
static int savek(int i)
{
    mrcal_image_void_t im; image(&im,SAVE[i].bpp,SAVE[i].pad);
    if(SAVE[i].bpp==8) return mrcal_image_uint8_save(path,(mrcal_image_uint8_t*)&im);
    if(SAVE[i].bpp==16) return mrcal_image_uint16_save(path,(mrcal_image_uint16_t*)&im);
    return mrcal_image_bgr_save(path,(mrcal_image_bgr_t*)&im);
}
static void prepare(int op)
{
    sprintf(path,"%s/m.cameramodel",dir);
    FILE* f;
    if(op==OP_FILE){ f=fopen(path,"w"); fputs(text,f); fclose(f); }
    if(op==OP_FILE_BIG||op==OP_FILE_INTO_BIG){ f=fopen(path,"w"); fwrite(big,1,nbig,f); fclose(f); }
    if(op==OP_WRITE||op==OP_WRITE_BIG){ unlink(path); MODEL=mrcal_read_cameramodel_string(op==OP_WRITE?text:big,0); }
    if(op>=OP_SAVE&&op<OP_LOAD){ sprintf(path,"%s/%s",dir,SAVE[op-OP_SAVE].ext); unlink(path); }
    if(op>=OP_LOAD){ int i=(op-OP_LOAD)/4; sprintf(path,"%s/%s",dir,SAVE[i].ext); unlink(path); if(!savek(i)) { printf("BAD cannot prepare %s\n",SAVE[i].ext); } }
}
static void run(int op,result_t* r)
{
    mrcal_cameramodel_VOID_t* m=NULL; int cap=2000;
    if(op==OP_STRING||op==OP_STRINGN||op==OP_FILE||op==OP_FILE_BIG)
    {
        m= op==OP_STRING?mrcal_read_cameramodel_string(text,0):op==OP_STRINGN?mrcal_read_cameramodel_string(text,strlen(text)):mrcal_read_cameramodel_file(path);
        r->ok=m!=NULL; if(m) { resmodel(r,m); mrcal_free_cameramodel(&m); }
    }
    else if(op==OP_INTO||op==OP_FILE_INTO_BIG)
    {
        r->ok= op==OP_INTO?mrcal_read_cameramodel_string_into(&BUF.m,&cap,text,strlen(text)):mrcal_read_cameramodel_file_into(&BUF.m,&cap,path);
        if(r->ok) resmodel(r,&BUF.m); else if(cap>0) { printf("BAD %s: asks for a buffer of %d\n",name_of(op),cap); }
    }
    else if(op==OP_WRITE||op==OP_WRITE_BIG) { r->ok=mrcal_write_cameramodel_file(path,MODEL); if(r->ok) resfile(r); }
    else if(op<OP_LOAD) { r->ok=savek(op-OP_SAVE); if(r->ok) resfile(r); }
    else
    {
        mrcal_image_void_t im; memset(&im,0x5a,sizeof(im)); int bpp=REQ[(op-OP_LOAD)%4],ch=-5;
        if(bpp==8) r->ok=mrcal_image_uint8_load((mrcal_image_uint8_t*)&im,path);
        else if(bpp==16) r->ok=mrcal_image_uint16_load((mrcal_image_uint16_t*)&im,path);
        else if(bpp==24) r->ok=mrcal_image_bgr_load((mrcal_image_bgr_t*)&im,path);
        else r->ok=mrcal_image_anytype_load(&im,&bpp,&ch,path);
        if(r->ok)
        {
            res(r,&im.width,4); res(r,&im.height,4); res(r,&bpp,4); res(r,&ch,4);
            for(int i=0;i<im.height;i++) res(r,(char*)im.data+i*im.stride,im.width*bpp/8);
            free(im.data);
        }
    }
}
int main(int argc,char** argv)
{
    dir=argv[1];
    real_fopen=dlsym(RTLD_NEXT,"fopen"); real_open=dlsym(RTLD_NEXT,"open"); real_close=dlsym(RTLD_NEXT,"close"); real_fstat=dlsym(RTLD_NEXT,"fstat"); real_mmap=dlsym(RTLD_NEXT,"mmap"); real_munmap=dlsym(RTLD_NEXT,"munmap");
    find_stb();
    int lo=atoi(argv[2]), step=atoi(argv[3]);
    for(int i=0;i<(int)sizeof(pix);i++) pix[i]=(i*37+i/7)%251;
    sprintf(text,"# c\n{'lensmodel':'LENSMODEL_OPENCV4','intrinsics':[1,2,3,4,.5,.25,.125,.0625],'extrinsics':[1,2,3,4,5,6],'imagersize':[640,480],'x':[[1,2],[3,4]]}\n");
    { int n=sprintf(big,"{'lensmodel':'LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=30_Ny=25_fov_x_deg=120','extrinsics':[1,2,3,4,5,6],'imagersize':[640,480],'intrinsics':[");
      for(int i=0;i<1504;i++) n+=sprintf(big+n,"%g,",i/1024.); n+=sprintf(big+n,"]}");
      while(n%4096) big[n++]='\n'; nbig=n; }
    freopen("/dev/null","w",stderr); setvbuf(stderr,NULL,_IONBF,0);
    if(argc>6) { int op=lo; result_t r={}; prepare(op); run(op,&r); prepare(op); fault_kind=atoi(argv[4]); fault_n=atoi(argv[5]); fault_sticky=atoi(argv[6]); armed=1; run(op,&r); armed=0; printf("ok %d fired %d live %ld %s\n",r.ok,fired,live,leaked()); return 0; }
    long total=0,distinct=0;
    for(int op=lo; op<NOPS; op+=step)
    {
        // without faults, twice
        result_t ref={}; prepare(op); run(op,&ref);
        long perkind[NKINDS]={};
        for(unbuffered=0; unbuffered<2; unbuffered++)
        for(int kind=0;kind<NKINDS;kind++)
        for(int sticky=0;sticky<(kind==WRITE?3:2);sticky++)
        for(int n=0;;n++)
        {
            fflush(stdout);
            int pp[2]; if(pipe(pp)) return 5;
            pid_t pid=fork();
            if(pid==0)
            {
                real_close(pp[0]);
                result_t r={}; prepare(op);
                int f0=nfds(); long m0=live_maps;
                fault_kind=kind; fault_n=n; fault_sticky=sticky; fired=0; live=0; memset(count,0,sizeof(count));
                alarm(20);
                armed=1; run(op,&r); armed=0;
                if(!fired) _exit(7);
                #define BAD(...) do { printf("BAD %s; %s #%d%s%s fails: ",name_of(op),KIND[kind],n,sticky==0?"":sticky==1?" and all later":" (short)",unbuffered?", unbuffered":""); printf(__VA_ARGS__); printf("\n"); fflush(stdout); } while(0)
                if(r.ok && !ref.ok) BAD("success, but fails without faults");
                if(r.ok && (r.n!=ref.n || memcmp(r.d,ref.d,r.n))) BAD("success with missing or wrong data");
                if(r.ok && kind==WRITE) BAD("success, although data was not written");
                if(r.ok && fired_kind_close_of_write) BAD("success, although closing the written file failed");
                if(nfds()!=f0) BAD("%d files left open",nfds()-f0);
                if(live_maps!=m0) BAD("%ld pages left mapped",live_maps-m0);
                if(live!=0) BAD("%ld allocations leaked (%s) %s",live,r.ok?"success":"failure",leaked());
                // the fault is over
                result_t r2={}; prepare(op); run(op,&r2);
                if(r2.ok!=ref.ok || r2.n!=ref.n || (r2.n && memcmp(r2.d,ref.d,r2.n))) BAD("the same call does not work afterwards");
                _exit(0);
            }
            real_close(pp[0]); real_close(pp[1]);
            int st; waitpid(pid,&st,0);
            if(WIFEXITED(st) && WEXITSTATUS(st)==7) break;
            total++; perkind[kind]++;
            if(!WIFEXITED(st) || WEXITSTATUS(st)!=0) printf("BAD %s; %s #%d%s%s fails: the process died (%s %d)\n",name_of(op),KIND[kind],n,sticky==0?"":" and all later",unbuffered?", unbuffered":"",WIFSIGNALED(st)?"signal":"exit",WIFSIGNALED(st)?WTERMSIG(st):WEXITSTATUS(st));
            if(n>20000) { printf("BAD %s: too many %s\n",name_of(op),KIND[kind]); break; }
        }
        unbuffered=0;
        printf("OP %s ok=%d result=%zu",name_of(op),ref.ok,ref.n);
        for(int k=0;k<NKINDS;k++) printf(" %s=%ld",KIND[k],perkind[k]);
        printf("\n");
    }
    printf("TOTAL %ld\n",total);
    return 0;
}
