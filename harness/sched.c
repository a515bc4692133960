/* Stateless exploration of the interleavings of two operations of the mrcal C library.

   The library is compiled with -fsanitize=thread, into a shared object that also contains ops.c. No
   sanitizer runtime is used: the functions the instrumentation calls are here, and they are the
   scheduling points: every access to memory, every function entry. Two threads execute, only the one
   holding the token runs.

   sched LIB DIR SLICE NSLICES BUDGET MAX2

   For each ordered pair of operations (a with data 0, b with data 1), from a pristine copy of the
   library's writable data:
     - a then b, b then a
     - a preempted at each of its scheduling points; b runs; a finishes
     - if the two touch the library's writable static data: a preempted at each shared access of its own, b preempted
       at each shared access of its own, a finishes, b finishes
   If a has n memory accesses and exploring all of them would cost more than BUDGET (number of
   preemption points times accesses executed), it is preempted at function entries and exits and at
   accesses to static data; if that is too many as well then only at accesses to static data.
   The results of both must be those that each of them produces alone. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <link.h>
#include <unistd.h>
#include <errno.h>
#include <sched.h>
#include "ops.h"

static ctx_t* (*p_setup)(int,int); static void (*p_run)(ctx_t*); static void (*p_result)(ctx_t*,void**,size_t*); static int (*p_n)(void); static void (*p_name)(int,char*,int);
static char dir[4096];
const char* ops_dir(void){ return dir; }

/* the writable segments of the library */
static struct { char *lo,*hi,*copy; } seg[8]; static int nseg;
static char* libbase_name;
static int phdr(struct dl_phdr_info* i,size_t n,void* cookie)
{
    if(!i->dlpi_name || strcmp(i->dlpi_name,libbase_name)) return 0;
    char *rl=NULL,*rh=NULL;
    for(int k=0;k<i->dlpi_phnum;k++) if(i->dlpi_phdr[k].p_type==PT_GNU_RELRO) { rl=(char*)i->dlpi_addr+i->dlpi_phdr[k].p_vaddr; rh=rl+i->dlpi_phdr[k].p_memsz; rh=(char*)(((uintptr_t)rh)&~4095UL); }
    for(int k=0;k<i->dlpi_phnum;k++)
    {
        if(i->dlpi_phdr[k].p_type!=PT_LOAD || !(i->dlpi_phdr[k].p_flags&PF_W)) continue;
        char* lo=(char*)i->dlpi_addr+i->dlpi_phdr[k].p_vaddr,*hi=lo+i->dlpi_phdr[k].p_memsz;
        if(rl && lo<=rl && rh>rl) lo=rh;
        if(lo>=hi) continue;
        seg[nseg].lo=lo; seg[nseg].hi=hi; seg[nseg].copy=malloc(hi-lo); memcpy(seg[nseg].copy,lo,hi-lo); nseg++;
    }
    return 0;
}
static void pristine(void){ for(int i=0;i<nseg;i++) memcpy(seg[i].lo,seg[i].copy,seg[i].hi-seg[i].lo); }

/* scheduler */
static sem_t go[2],done_sem; static int plan[2]; /* preempt thread i at its plan[i]-th point; <0: never */
static volatile int cur,finished[2],count_[2],shared_[2],sharedw[2],coarse[2],only_shared[2]; 
static volatile unsigned long lastshared; static ctx_t* job[2]; static volatile int blocked[2];
static __thread int me=-1; static __thread int inhook;
static void switch_to(int o){ cur=o; sem_post(&go[o]); while(sem_wait(&go[me])&&errno==EINTR); }
static inline void point(void)
{
    int m=me;
    if(count_[m]++==plan[m] && !finished[1-m]) switch_to(1-m);
}
static inline void access_(void* a,unsigned n,int w)
{
    if(me<0) return;
    int sh=0;
    for(int i=0;i<nseg;i++) if((char*)a+n>seg[i].lo && (char*)a<seg[i].hi) { sh=1; if(w) { sharedw[me]++; lastshared=(char*)a-seg[i].lo; } }
    if(sh) shared_[me]++;
    if(only_shared[me] ? sh : (sh || !coarse[me])) point();
}
#define RW(n) void __tsan_read##n(void* a){access_(a,n,0);} void __tsan_write##n(void* a){access_(a,n,1);} \
 void __tsan_unaligned_read##n(void* a){access_(a,n,0);} void __tsan_unaligned_write##n(void* a){access_(a,n,1);} \
 void __tsan_volatile_read##n(void* a){access_(a,n,0);} void __tsan_volatile_write##n(void* a){access_(a,n,1);} \
 void __tsan_unaligned_volatile_read##n(void* a){access_(a,n,0);} void __tsan_unaligned_volatile_write##n(void* a){access_(a,n,1);} \
 void __tsan_read_write##n(void* a){access_(a,n,1);} void __tsan_unaligned_read_write##n(void* a){access_(a,n,1);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a,unsigned long n){access_(a,n,0);} 
void __tsan_write_range(void* a,unsigned long n){access_(a,n,1);}
void __tsan_func_entry(void* p){ if(me>=0 && !only_shared[me]) point(); }
void __tsan_func_exit(void){ if(me>=0 && !only_shared[me]) point(); }
void __tsan_init(void){}
void __tsan_vptr_update(void** a,void* b){ *a=b; } void __tsan_vptr_read(void** a){}
#define AT(T,n) \
 T __tsan_atomic##n##_load(const volatile T* a,int mo){ access_((void*)a,sizeof(T),0); return *a; } \
 void __tsan_atomic##n##_store(volatile T* a,T v,int mo){ access_((void*)a,sizeof(T),1); *a=v; } \
 T __tsan_atomic##n##_exchange(volatile T* a,T v,int mo){ access_((void*)a,sizeof(T),1); T o=*a; *a=v; return o; } \
 T __tsan_atomic##n##_fetch_add(volatile T* a,T v,int mo){ access_((void*)a,sizeof(T),1); T o=*a; *a=o+v; return o; } \
 T __tsan_atomic##n##_fetch_sub(volatile T* a,T v,int mo){ access_((void*)a,sizeof(T),1); T o=*a; *a=o-v; return o; } \
 T __tsan_atomic##n##_fetch_or(volatile T* a,T v,int mo){ access_((void*)a,sizeof(T),1); T o=*a; *a=o|v; return o; } \
 T __tsan_atomic##n##_fetch_and(volatile T* a,T v,int mo){ access_((void*)a,sizeof(T),1); T o=*a; *a=o&v; return o; } \
 T __tsan_atomic##n##_fetch_xor(volatile T* a,T v,int mo){ access_((void*)a,sizeof(T),1); T o=*a; *a=o^v; return o; } \
 int __tsan_atomic##n##_compare_exchange_strong(volatile T* a,T* e,T v,int mo,int fm){ access_((void*)a,sizeof(T),1); if(*a==*e) { *a=v; return 1; } *e=*a; return 0; } \
 int __tsan_atomic##n##_compare_exchange_weak(volatile T* a,T* e,T v,int mo,int fm){ return __tsan_atomic##n##_compare_exchange_strong(a,e,v,mo,fm); } \
 T __tsan_atomic##n##_compare_exchange_val(volatile T* a,T e,T v,int mo,int fm){ T x=e; __tsan_atomic##n##_compare_exchange_strong(a,&x,v,mo,fm); return x; }
AT(uint8_t,8) AT(uint16_t,16) AT(uint32_t,32) AT(uint64_t,64)
void __tsan_atomic_thread_fence(int mo){} void __tsan_atomic_signal_fence(int mo){}
void ops_yield(void){ if(me>=0) point(); }
/* a library that protects its state with locks is fine: waiting for a lock means that the other one runs */
int pthread_mutex_lock(pthread_mutex_t* m)
{
    static int (*tl)(pthread_mutex_t*),(*rl)(pthread_mutex_t*); if(!tl) { tl=dlsym(RTLD_NEXT,"pthread_mutex_trylock"); rl=dlsym(RTLD_NEXT,"pthread_mutex_lock"); }
    if(me<0) return rl(m);
    for(;;) { int r=tl(m); if(r!=EBUSY) return r; if(finished[1-me]) return rl(m); switch_to(1-me); }
}
/* initialization of a function-local static of C++ */
int __cxa_guard_acquire(uint64_t* g)
{
    char* b=(char*)g;
    for(;;) { if(b[0]) return 0; if(!b[1]) { b[1]=1; return 1; } if(me<0||finished[1-me]) return 0; switch_to(1-me); }
}
void __cxa_guard_release(uint64_t* g){ ((char*)g)[1]=0; ((char*)g)[0]=1; }
void __cxa_guard_abort(uint64_t* g){ ((char*)g)[1]=0; }

static int start_first;
static void* worker(void* a)
{
    int id=(int)(intptr_t)a; 
    for(;;)
    {
        while(sem_wait(&go[id])&&errno==EINTR);
        if(!job[id]) return NULL;
        me=id; p_run(job[id]); 
        finished[id]=1; me=-1;
        if(finished[1-id] || !job[1-id]) sem_post(&done_sem);
        else { cur=1-id; sem_post(&go[1-id]); }
    }
}
static unsigned long schedules;
/* runs job[0], job[1] (either may be NULL) according to plan[], starting with 'first' */
static void execute(int first)
{
    pristine(); schedules++;
    for(int i=0;i<2;i++) finished[i]=!job[i],count_[i]=shared_[i]=sharedw[i]=0;
    cur=first; sem_post(&go[first]); while(sem_wait(&done_sem)&&errno==EINTR);
}
static unsigned char* sav[2]; static size_t nsav[2];
static int nviol;
static const char* nm(int op){ static char b[4][200]; static int k; k=(k+1)&3; p_name(op,b[k],200); return b[k]; }
static int bad(int oa,int ob,const char* how,int k1,int k2)
{
    int r=0;
    for(int i=0;i<2;i++)
    {
        void* p; size_t n; p_result(job[i],&p,&n);
        if(n!=nsav[i] || memcmp(p,sav[i],n))
        {
            size_t j=0; while(j<n && j<nsav[i] && ((unsigned char*)p)[j]==sav[i][j]) j++;
            double g=0,w=0; j&=~7UL; if(j+8<=n) memcpy(&g,(char*)p+j,8); if(j+8<=nsav[i]) memcpy(&w,sav[i]+j,8);
            printf("V\t%s\t%s\t%s\t%d\t%d\t%d\t%zu\t%.17g\t%.17g\n",nm(oa),nm(ob),how,k1,k2,i,j/8,g,w); fflush(stdout); r=1; nviol++;
        }
    }
    return r;
}
int main(int argc,char** argv)
{
    if(argc<7) return 2;
    snprintf(dir,sizeof(dir),"%s",argv[2]); double budget=atof(argv[5]); int slice=atoi(argv[3]),nslices=atoi(argv[4]),max2=atoi(argv[6]);
    const char* only=argc>7?argv[7]:NULL;
    void* h=dlopen(argv[1],RTLD_NOW|RTLD_LOCAL); if(!h) { fprintf(stderr,"%s\n",dlerror()); return 2; }
    libbase_name=argv[1];
    p_setup=dlsym(h,"ops_setup"); p_run=dlsym(h,"ops_run"); p_result=dlsym(h,"ops_result"); p_n=dlsym(h,"ops_n"); p_name=dlsym(h,"ops_name");
    if(!freopen("/dev/null","w",stderr)) return 2;
    dl_iterate_phdr(phdr,NULL);
    cpu_set_t all,one; CPU_ZERO(&one); 
    if(sched_getaffinity(0,sizeof(all),&all)==0 && CPU_COUNT(&all)>0)
    {   /* one at a time: hand over on the same CPU */
        int k=slice%CPU_COUNT(&all);
        for(int i=0;i<CPU_SETSIZE;i++) if(CPU_ISSET(i,&all) && k--==0) { CPU_SET(i,&one); sched_setaffinity(0,sizeof(one),&one); break; }
    }
    sem_init(&go[0],0,0); sem_init(&go[1],0,0); sem_init(&done_sem,0,0);
    pthread_t t[2]; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,64<<20);
    for(int i=0;i<2;i++) if(pthread_create(&t[i],&at,worker,(void*)(intptr_t)i)) return 2;
    int n=p_n();
    ctx_t* cx[256][2]; unsigned char* solo[256][2]; size_t nsolo[256][2]; int pts[256][2],ptsc[256][2],sh[256][2],shw[256][2];
    plan[0]=plan[1]=-1;
    for(int op=0;op<n;op++) for(int v=0;v<2;v++)
    {
        pristine(); cx[op][v]=p_setup(op,v);
        for(int rep=0;rep<3;rep++)
        {
            job[v]=cx[op][v]; job[1-v]=NULL; coarse[0]=coarse[1]=rep==1; only_shared[0]=only_shared[1]=0;
            execute(v);
            void* p; size_t k; p_result(cx[op][v],&p,&k);
            if(rep==0) { solo[op][v]=malloc(k); memcpy(solo[op][v],p,k); nsolo[op][v]=k; pts[op][v]=count_[v]; sh[op][v]=shared_[v]; shw[op][v]=sharedw[v]; }
            else if(k!=nsolo[op][v] || memcmp(p,solo[op][v],k)) { printf("V\t%s\t\trepeat\t0\t0\t%d\t0\t0\t0\n",nm(op),v); nviol++; }
            if(rep==1) ptsc[op][v]=count_[v];
        }
        if(slice==0) printf("O\t%s\t%d\t%zu\t%d\t%d\t%d\t%d\n",nm(op),v,nsolo[op][v],pts[op][v],ptsc[op][v],sh[op][v],shw[op][v]);
    }
    int pair=0; unsigned long npairs=0,points=0,two=0,nshared=0,level[3]={}; 
    for(int a=0;a<n;a++) for(int b=0;b<n;b++,pair++)
    {
        if(pair%nslices!=slice) continue;
        if(only && !strstr(nm(a),only)) continue;
        npairs++;
        job[0]=cx[a][0]; job[1]=cx[b][1]; sav[0]=solo[a][0]; sav[1]=solo[b][1]; nsav[0]=nsolo[a][0]; nsav[1]=nsolo[b][1];
        for(int i=0;i<2;i++) only_shared[i]=0,coarse[i]=1,plan[i]=-1;
        int v=0;
        execute(0); v+=bad(a,b,"one after the other",-1,-1);
        execute(1); v+=bad(a,b,"one after the other, reversed",-1,-1);
        double work=2000.+pts[a][0]+pts[b][1];
        int np=pts[a][0]; coarse[0]=0;
        if(np*work>budget) { coarse[0]=1; np=ptsc[a][0]; }
        if(np*work>budget) { only_shared[0]=1; np=sh[a][0]; }
        level[only_shared[0]?2:coarse[0]]++;
        for(int k=0;k<np && v<3;k++) { plan[0]=k; execute(0); points++; v+=bad(a,b,"preempted",k,-1); }
        if((shw[a][0]||shw[b][1]) && sh[a][0] && sh[b][1])
        {
            nshared++;
            only_shared[0]=only_shared[1]=1;
            for(int k=0;k<sh[a][0] && v<3;k++) for(int l=0;l<sh[b][1] && v<3;l++) if((long)k*sh[b][1]+l<max2) { plan[0]=k; plan[1]=l; execute(0); two++; v+=bad(a,b,"both preempted",k,l); }
        }
    }
    printf("S\t%d\t%lu\t%lu\t%lu\t%lu\t%lu\t%lu\t%lu\t%lu\n",n,npairs,schedules,points,two,nshared,level[0],level[1],level[2]);
    return 0;
}
