// Reads model texts with every entry point of the C reader, in buffers that are exactly as large as
// promised (the sanitizers watch their ends). Commands on stdin, results on stdout.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/mman.h>
#include "mrcal.h"

void* __real_mmap(void*,size_t,int,int,int,off_t);
int   __real_munmap(void*,size_t);
static long live_maps=0;
static int in_lib=0;
// an unreadable page is put after each anonymous mapping, and mappings are counted
void* __wrap_mmap(void* a,size_t n,int p,int f,int fd,off_t o)
{
    if(!in_lib) return __real_mmap(a,n,p,f,fd,o);
    size_t N=(n+4095)/4096*4096;
    if((f&MAP_FIXED)) { if(n==0) return MAP_FAILED; return __real_mmap(a,n,p,f,fd,o); }
    char* r=__real_mmap(NULL,N+4096,PROT_NONE,MAP_ANONYMOUS|MAP_PRIVATE,-1,0);
    if(r==MAP_FAILED || n==0) return MAP_FAILED;
    if(MAP_FAILED==__real_mmap(r,n,p,f|MAP_FIXED,fd,o)) return MAP_FAILED;
    live_maps++;
    return r;
}
int __wrap_munmap(void* a,size_t n)
{
    if(!in_lib) return __real_munmap(a,n);
    size_t N=(n+4095)/4096*4096;
    live_maps--;
    return __real_munmap(a,N+4096);
}
static int rd(void* p,size_t n){ return n==0 || fread(p,1,n,stdin)==n; }
static void wr(const void* p,size_t n){ fwrite(p,1,n,stdout); }
static void wi(int32_t x){ wr(&x,4); }
static void emit(const mrcal_cameramodel_VOID_t* m)
{
    char name[1024]="";
    mrcal_lensmodel_name(name,sizeof(name),&m->lensmodel);
    int N=mrcal_lensmodel_num_params(&m->lensmodel);
    wi(strlen(name)); wr(name,strlen(name)); wi(N);
    wr(m->rt_cam_ref,48); wr(m->imagersize,8); wr(m->intrinsics,8*N);
}
static int same(const mrcal_cameramodel_VOID_t* a,const mrcal_cameramodel_VOID_t* b)
{
    char na[1024]="",nb[1024]="";
    mrcal_lensmodel_name(na,sizeof(na),&a->lensmodel);
    mrcal_lensmodel_name(nb,sizeof(nb),&b->lensmodel);
    return !strcmp(na,nb) && !memcmp(a->rt_cam_ref,b->rt_cam_ref,48) && !memcmp(a->imagersize,b->imagersize,8)
        && !memcmp(a->intrinsics,b->intrinsics,8*mrcal_lensmodel_num_params(&a->lensmodel));
}
static int nfds(void)
{
    int n=0; DIR* d=opendir("/proc/self/fd"); while(readdir(d)) n++; closedir(d); return n;
}
int main(int argc,char** argv)
{
    const char* path=argv[1];
    char op; int32_t n;
    mrcal_cameramodel_VOID_t* stuck=NULL;
    while(fread(&op,1,1,stdin)==1)
    {
        if(!rd(&n,4)) break;
        char* s=malloc(n+1); rd(s,n); s[n]=0;
        if(op=='W')
        {
            // parses, writes with the C writer into path
            mrcal_cameramodel_VOID_t* m=mrcal_read_cameramodel_string(s,n);
            int f0=nfds();
            int ok = m!=NULL && mrcal_write_cameramodel_file(path,m);
            wi(m==NULL ? -1 : ok); wi(nfds()-f0);
            mrcal_free_cameramodel(&m);
            fflush(stdout); free(s); continue;
        }
        uint32_t bad=0;
        mrcal_cameramodel_VOID_t *z=NULL,*m=NULL;
        // not terminated, length given
        if(n>0) { char* e=malloc(n); memcpy(e,s,n); m=mrcal_read_cameramodel_string(e,n); free(e); }
        // terminated
        z=mrcal_read_cameramodel_string(s,(op=='N')?-3:0);
        if(n>0 && ((m==NULL)!=(z==NULL) || (m && !same(m,z)))) bad|=1;
        if(op=='F')
        {
            FILE* f=fopen(path,"w"); fwrite(s,1,n,f); fclose(f);
            int f0=nfds(); long m0=live_maps; in_lib=1;
            mrcal_cameramodel_VOID_t* x=mrcal_read_cameramodel_file(path);
            in_lib=0;
            if((x==NULL)!=(z==NULL) || (x && !same(x,z))) bad|=2;
            if(nfds()!=f0) bad|=4;
            if(live_maps!=m0) bad|=8;
            mrcal_free_cameramodel(&x);
            if(x!=NULL) bad|=0x1000;
        }
        // the caller's buffer
        int N= z ? mrcal_lensmodel_num_params(&z->lensmodel) : 9;
        int caps[]={N,N-1,N/2,1,0,N+5,-1};
        for(int how=0; how<(op=='F'?2:1); how++)
        for(unsigned i=0; i<sizeof(caps)/sizeof(caps[0]); i++)
        {
            int cap=caps[i], c0=cap;
            mrcal_cameramodel_VOID_t* x=malloc(sizeof(*x)+8*(cap<0?0:cap));
            in_lib=1;
            bool r= how==0 ? mrcal_read_cameramodel_string_into(x,&cap,s,0) : mrcal_read_cameramodel_file_into(x,&cap,path);
            in_lib=0;
            if(z)
            {
                if(c0>=N) { if(!r) bad|=16; else if(!same(x,z)) bad|=32; }
                else      { if(r) bad|=64; if(cap!=N) bad|=128; }
            }
            else
            {
                if(r) bad|=256;
                // any other failure: <=0. Text whose buffer was found too small before its error: what that model needs
                if(cap>0 && cap<=c0) bad|=512;
                if(cap>0 && c0>=1000) bad|=512;
            }
            free(x);
        }
        if(!z)
        {
            int cap=1000;
            mrcal_cameramodel_VOID_t* x=malloc(sizeof(*x)+8*cap);
            bool r=mrcal_read_cameramodel_string_into(x,&cap,s,0);
            if(r) bad|=256;
            if(cap>0 && cap<=1000) bad|=512;
            free(x);
        }
        wi(bad); wi(z!=NULL);
        if(z) emit(z);
        if(m) mrcal_free_cameramodel(&m);
        if(z) { mrcal_free_cameramodel(&z); if(z!=NULL) abort(); }
        free(s);
        fflush(stdout);
    }
    return 0;
}
