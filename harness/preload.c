// LD_PRELOAD: fails the n-th allocation made while armed. Thread 0 only.
#define _GNU_SOURCE
#include <stdlib.h>
#include <errno.h>
#include <string.h>
#include <stdint.h>
extern void* __libc_malloc(size_t); extern void __libc_free(void*); extern void* __libc_calloc(size_t,size_t); extern void* __libc_realloc(void*,size_t); extern void* __libc_memalign(size_t,size_t);
static volatile int armed; static volatile long n_fail,n_seen; static volatile int sticky,fired;
static uintptr_t skip[64][2]; static int nskip;
static void* volatile caller;
void vf_skip(uintptr_t a,uintptr_t b){ skip[nskip][0]=a; skip[nskip++][1]=b; }
void vf_arm(long n,int s){ n_fail=n; n_seen=0; sticky=s; fired=0; armed=1; }
void vf_disarm(void){ armed=0; }
int vf_fired(void){ return fired; }
long vf_seen(void){ return n_seen; }
void* vf_caller(void){ return caller; }
static int hit(void* c)
{
    if(!armed) return 0;
    for(int i=0;i<nskip;i++) if((uintptr_t)c>=skip[i][0] && (uintptr_t)c<skip[i][1]) return 0;
    long k=n_seen++;
    if(k==n_fail || (sticky && k>n_fail)) { if(!fired) caller=c; fired++; errno=ENOMEM; return 1; }
    return 0;
}
#define C __builtin_return_address(0)
void* malloc(size_t n){ return hit(C)?NULL:__libc_malloc(n); }
void* calloc(size_t a,size_t b){ return hit(C)?NULL:__libc_calloc(a,b); }
void* realloc(void* q,size_t n){ return hit(C)?NULL:__libc_realloc(q,n); }
int posix_memalign(void** o,size_t a,size_t n){ if(hit(C)) return ENOMEM; void* p=__libc_memalign(a,n); if(!p) return ENOMEM; *o=p; return 0; }
void* aligned_alloc(size_t a,size_t n){ return hit(C)?NULL:__libc_memalign(a,n); }
