#pragma once
#include <stddef.h>
typedef struct ctx ctx_t;
int ops_n(void);
void ops_name(int op,char* s,int n);
ctx_t* ops_setup(int op,int v);
void ops_run(ctx_t* c);
void ops_result(ctx_t* c,void** p,size_t* n);
/* provided by the scheduler */
const char* ops_dir(void);
void ops_yield(void);
