SEEDS = {}
SEEDS['b17-load-then-select'] = dict(property='C17', asan=True, needs='the first image row of an array with nothing readable in front of it',
  what='the neighbour above is loaded before testing whether there is one: the first row reads in front of the array',
  edits=[('src/TV.c', '''    Ai = i < (n - 1) * m ? A[i] : 0;
    Ai_min_m = i < m ? 0 : A[i - m];
    dyt[i]''', '''    Ai = i < (n - 1) * m ? A[i] : 0;
    /* Load unconditionally, select afterwards: vectorizes better. */
    Ai_min_m = A[i - m];
    Ai_min_m = i < m ? 0 : Ai_min_m;
    dyt[i]''')],
  demo='''#include "TV.h"
int main(){int n=5,m=40;double*a=malloc(n*m*8),*y=malloc(n*m*8);for(int i=0;i<n*m;i++)a[i]=rnd();
l1c_DyT(n,m,1.5,a,y);for(int i=0;i<n*m;i++){double w=1.5*((i<m?0:a[i-m])-(i<(n-1)*m?a[i]:0));if(fabs(w-y[i])>1e-12)return bad("value");}
return 0;}
''')
SEEDS['b17-one-block'] = dict(property='C17', clang=True, needs='an image whose pixel count is not a multiple of 8',
  what='the two scratch arrays share one block; the second starts off the 64-byte boundary that the vector kernels are promised',
  edits=[('src/bregman.c', '''  dwork1 = l1c_calloc_double(N);
  dwork2 = l1c_calloc_double(N);
''', '''  dwork1 = l1c_calloc_double(2 * N);
  dwork2 = dwork1 ? dwork1 + N : NULL;
'''), ('src/bregman.c', '''  l1c_free_double(dwork1);
  l1c_free_double(dwork2);
  l1c_free_double(rhs);
''', '''  l1c_free_double(dwork1);
  l1c_free_double(rhs);
''')],
  demo='''#include "bregman.h"
int main(){int n=5,m=7;double*f=l1c_malloc_double(n*m),*u=l1c_malloc_double(n*m);for(int i=0;i<n*m;i++)f[i]=rnd();
if(l1c_breg_anistropic_TV(n,m,u,f,2.0,1e-3,5,1))return bad("status");
return 0;}
''')
INTER = '''#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fftw3.h>
static int on, cnt, failat = -1, live, plans, pfail = -1, pcnt; static void *own[4096]; 
static void add(void*p){if(p&&live<4096)own[live++]=p;}
static int del(void*p){for(int i=0;i<live;i++)if(own[i]==p){own[i]=own[--live];return 1;}return 0;}
int posix_memalign(void**o,size_t al,size_t n){if(on){if(cnt++==failat)return ENOMEM;}void*p=aligned_alloc(al,(n+al-1)/al*al);if(!p)return ENOMEM;*o=p;if(on)add(p);return 0;}
static void (*rf)(void*);
void free(void*p){if(!rf)rf=dlsym(RTLD_NEXT,"free");if(on)del(p);rf(p);}
fftw_plan fftw_plan_r2r_2d(int a,int b,double*x,double*y,fftw_r2r_kind k,fftw_r2r_kind l,unsigned f){
 static fftw_plan(*r)(int,int,double*,double*,fftw_r2r_kind,fftw_r2r_kind,unsigned);if(!r)r=dlsym(RTLD_NEXT,"fftw_plan_r2r_2d");
 int o=on;if(on&&pcnt++==pfail)return NULL;on=0;fftw_plan p=r(a,b,x,y,k,l,f);on=o;if(p&&on)plans++;return p;}
void fftw_destroy_plan(fftw_plan p){static void(*r)(fftw_plan);if(!r)r=dlsym(RTLD_NEXT,"fftw_destroy_plan");int o=on;on=0;r(p);on=o;if(p&&on)plans--;}
'''
SEEDS['b18-second-plan'] = dict(property='C18', needs='the first FFTW plan is created and the second is refused',
  what='when only the second transform cannot be planned the first plan is never destroyed',
  link='-rdynamic -ldl',
  edits=[('src/dct2.c', '''  dct2_plan_MtEty = fftw_plan_r2r_2d(
      mrow, mcol, dct2_Ety_sparse, dct2_x, dct2_kind_MtEty, dct2_kind_MtEty, flags);

  dct2_plan_EMx =
      fftw_plan_r2r_2d(mrow, mcol, dct2_x, dct2_y, dct2_kind_EMx, dct2_kind_EMx, flags);

  if (!dct2_plan_EMx || !dct2_plan_MtEty) {
    fprintf(stderr, "Failed to initialize FFTW3 dct plans.\\n");
    status = L1C_DCT_INIT_FAILURE;
    goto fail;
  }
''', '''  dct2_plan_MtEty = fftw_plan_r2r_2d(
      mrow, mcol, dct2_Ety_sparse, dct2_x, dct2_kind_MtEty, dct2_kind_MtEty, flags);
  if (!dct2_plan_MtEty) {
    fprintf(stderr, "Failed to initialize FFTW3 dct plans.\\n");
    status = L1C_DCT_INIT_FAILURE;
    goto fail;
  }

  dct2_plan_EMx =
      fftw_plan_r2r_2d(mrow, mcol, dct2_x, dct2_y, dct2_kind_EMx, dct2_kind_EMx, flags);
  if (!dct2_plan_EMx) {
    fprintf(stderr, "Failed to initialize FFTW3 inverse dct plan.\\n");
    l1c_free_double(dct2_x);
    l1c_free_double(dct2_y);
    l1c_free_double(dct2_Ety_sparse);
    return L1C_DCT_INIT_FAILURE;
  }
''')],
  demo=INTER + '''
int main(){l1c_int pix[3]={1,4,7};
for(pfail=-1;pfail<3;pfail++){l1c_AxFuns f;memset(&f,0,sizeof f);pcnt=0;live=0;plans=0;on=1;
int st=l1c_dct2_setup(3,3,4,pix,&f);on=0;
if(pcnt>pfail&&pfail>=0){if(st!=L1C_DCT_INIT_FAILURE)return bad("status");}
else{if(st)return bad("status on success");on=1;f.destroy();on=0;}
if(plans)return bad("a plan is never destroyed");if(live)return bad("memory never released");}
return 0;}
''')
SEEDS['b18-row-cleanup'] = dict(property='C18', needs='a later row of a 2-D array cannot be allocated',
  what='unwinding the rows after a failure stops before the first one, which is lost',
  link='-rdynamic -ldl',
  edits=[('src/l1c_memory.c', '''fail2:
  for (k = 0; k < nrow; k++) {
    l1c_free_double(dwork[k]);
  }
''', '''fail2:
  /* Rows from k on were not allocated. */
  while (--k > 0) {
    l1c_free_double(dwork[k]);
  }
''')],
  demo=INTER + '''
int main(){for(failat=-1;failat<6;failat++){cnt=0;live=0;on=1;double**d=l1c_malloc_double_2D(5,7);on=0;
if((failat>=0&&failat<5)!=(d==NULL))return bad("result");
if(d){on=1;l1c_free_double_2D(5,d);on=0;}
if(live)return bad("a row is never released");}
return 0;}
''')
SEEDS['b19-next-row'] = dict(property='C19', needs='at least two threads and an image tall enough to be split between them',
  what='every row clears the row below before that one is filled; right in sequence, but across threads a row that is already computed is cleared',
  edits=[('src/TV.c', '''#pragma omp parallel for private(col)
  for (row = 0; row < n - 1; row++) {
    for (col = row * m; col < (row + 1) * m; col++) {
      Dy[col] = alpha * (X[col + m] - X[col]);
    }
  }

#pragma omp parallel for
  // Ensure the last m items are zero.
  for (int i = (n - 1) * m; i < n * m; i++) {
    Dy[i] = 0;
  }
''', '''#pragma omp parallel for private(col) if (n * m > 100000)
  for (row = 0; row < n - 1; row++) {
    for (col = row * m; col < (row + 1) * m; col++) {
      Dy[col] = alpha * (X[col + m] - X[col]);
      // So that the last m items are zero in the end.
      Dy[col + m] = 0;
    }
  }
''')],
  demo='''#include "TV.h"
int main(){int n=400,m=300;double*a=l1c_malloc_double(n*m),*y=l1c_malloc_double(n*m);for(int i=0;i<n*m;i++)a[i]=rnd();
for(int t=0;t<20;t++){l1c_Dy(n,m,1.5,a,y);for(int i=0;i<n*m;i++){double w=i<(n-1)*m?1.5*(a[i+m]-a[i]):0;if(fabs(w-y[i])>1e-12)return bad("result depends on the schedule");}}
return 0;}
''')
SEEDS['b19-partial-sums'] = dict(property='C19', needs='two threads finishing their part of a long sum at the same moment',
  what='the per-thread partial sums of the log-sum are added to the shared total without synchronisation, so that one can be lost',
  edits=[('src/l1c_math.c', '''#pragma omp parallel for reduction(+ : total)
  for (i = 0; i < N; i++) {
    total += log(alpha * x[i]);
  }
  return total;
''', '''#pragma omp parallel if (N > 512)
  {
    double part = 0.0;
#pragma omp for
    for (i = 0; i < N; i++) {
      part += log(alpha * x[i]);
    }
    total += part;
  }
  return total;
''')],
  demo='''#include "l1c_math.h"
int main(){int N=640;double*x=l1c_malloc_double(N);double w=0;for(int i=0;i<N;i++){x[i]=1.5+rnd()*.4;w+=log(2*x[i]);}
for(int t=0;t<400000;t++){double s=l1c_dlogsum(N,2.0,x);if(fabs(s-w)>1e-6)return bad("a partial sum was lost");}
return 0;}
''')
