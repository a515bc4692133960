// All connection matrices of N sensors over an alphabet; every one traversed to the end, and stopped at every point.
// links N lo step w0 w1 ...
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mrcal.h"
static int N,K; static uint16_t A[16];
static int order[64][2],n,stopat;
static bool cb(const uint16_t to,const uint16_t from,void* cookie)
{
    if(n<64){ order[n][0]=to; order[n][1]=from; }
    n++;
    return cookie!=(void*)&stopat || n-1!=stopat;
}
int main(int argc,char** argv)
{
    N=atoi(argv[1]); long lo=atol(argv[2]),step=atol(argv[3]); K=argc-4;
    for(int i=0;i<K;i++) A[i]=atoi(argv[4+i]);
    int E=N*(N-1)/2; long tot=1; for(int i=0;i<E;i++) tot*=K;
    long done=0,trav=0; int bad=0;
    for(long g=lo;g<tot;g+=step)
    {
        // exactly-sized heap allocation
        uint16_t* M=malloc(E?E*sizeof(uint16_t):1); uint16_t M0[64]={};
        long x=g; for(int i=0;i<E;i++){ M[i]=M0[i]=A[x%K]; x/=K; }
        uint64_t W[8][8],D[8][8]; memset(W,0xff,sizeof(W));
        int k=0; for(int i=0;i<N;i++) for(int j=i+1;j<N;j++,k++) if(M0[k]) W[i][j]=W[j][i]=65536-M0[k];
        memcpy(D,W,sizeof(D)); for(int i=0;i<N;i++) D[i][i]=0;
        for(int m=0;m<N;m++) for(int i=0;i<N;i++) for(int j=0;j<N;j++) if(D[i][m]!=-1UL&&D[m][j]!=-1UL&&D[i][m]+D[m][j]<D[i][j]) D[i][j]=D[i][m]+D[m][j];
        int full=0; const char* why=NULL;
        for(int s=-1;s<=full && !why;s++)
        {
            n=0; stopat=s;
            bool r=mrcal_traverse_sensor_links(N,M,cb,s<0?NULL:(void*)&stopat); trav++;
            if(memcmp(M,M0,E*2)) why="the matrix was changed";
            if(s<0)
            {
                full=n; if(!r) why="failed";
                bool seen[8]={true}; uint64_t last=0; int reach=0;
                for(int i=1;i<N;i++) reach+=D[0][i]!=-1UL;
                if(n!=reach) why="number of sensors visited";
                for(int i=0;i<n && !why;i++)
                {
                    int to=order[i][0],from=order[i][1];
                    if(to>=N||from>=N) why="no such sensor";
                    else if(seen[to]) why="visited twice";
                    else if(!seen[from]) why="parent not visited yet";
                    else if(W[to][from]==-1UL||D[0][from]+W[to][from]!=D[0][to]) why="not on a best path";
                    else if(D[0][to]<last) why="order";
                    else { seen[to]=true; last=D[0][to]; }
                }
            }
            else if(s<full){ if(r) why="success reported though the callback stopped it"; if(n!=s+1) why="continued after being stopped"; }
            else if(!r||n!=full) why="stopped though never asked to";
        }
        if(why && bad++<5){ printf("BAD %s: N=%d",why,N); for(int i=0;i<E;i++) printf(" %d",M0[i]); printf("\n"); }
        free(M); done++;
    }
    printf("TOTAL %ld %ld %d\n",done,trav,bad);
    return bad!=0;
}
