SEEDS = {}
JS = '''#include "json_utils.h"
'''
SEEDS['b20-any-case'] = dict(property='C20', link='-lcjson', needs='a document with two names that differ only in case',
  what='names are matched without regard to case: the array of another entry is returned with status 0',
  edits=[('src/json_utils.c', '''  int status = 0;
  cJSON* x_json = cJSON_GetObjectItemCaseSensitive(data_json, name);
  if (!cJSON_IsArray(x_json)) {
    fprintf(stderr, "Error in extract_json_double_array: cannot extract %s\\n", name);
    status = 1;
    *N = 0;
    goto end;
  }
''', '''  int status = 0;
  cJSON* x_json = cJSON_GetObjectItem(data_json, name);
  if (!cJSON_IsArray(x_json)) {
    fprintf(stderr, "Error in extract_json_double_array: cannot extract %s\\n", name);
    status = 1;
    *N = 0;
    goto end;
  }
''')],
  demo=JS + '''int main(){cJSON*j=cJSON_Parse("{\\"B\\": [9, 8], \\"b\\": [1.5, 2.5, -3]}");double*x=NULL;l1c_int N=-1;
if(extract_json_double_array(j,"b",&x,&N)||N!=3||x[0]!=1.5||x[1]!=2.5||x[2]!=-3)return bad("not the data stored under the name");
if(!extract_json_double_array(j,"c",&x,&N))return bad("an absent name is accepted");
return 0;}
''')
SEEDS['b20-int-cache'] = dict(property='C20', link='-lcjson', needs='an int array with an element above 2^24',
  what='elements of an int array are converted from the double value through a temporary of type float: whole numbers above 2^24 lose their last digits',
  edits=[('src/json_utils.c', '''    (*x)[k] = xk_json->valueint;
''', '''    float v = xk_json->valuedouble;
    (*x)[k] = (l1c_int)v;
''')],
  demo=JS + '''int main(){cJSON*j=cJSON_Parse("{\\"p\\": [0, 1, 16777217, 262144, 33554435]}");l1c_int*x=NULL;l1c_int N=-1;l1c_int w[5]={0,1,16777217,262144,33554435};
if(extract_json_int_array(j,"p",&x,&N)||N!=5)return bad("status or length");
for(int i=0;i<5;i++)if(x[i]!=w[i])return bad("an index is not the stored one");
return 0;}
''')
SEEDS['b20-number-strings'] = dict(property='C20', link='-lcjson', needs='a scalar entry that is not a number (a string, a bool, null)',
  what='an entry of the wrong type is reported as 0 with status 0',
  edits=[('src/json_utils.c', '''  cJSON* a_json = cJSON_GetObjectItemCaseSensitive(data_json, name);
  if (!cJSON_IsNumber(a_json)) {
''', '''  cJSON* a_json = cJSON_GetObjectItemCaseSensitive(data_json, name);
  if (!a_json || cJSON_IsArray(a_json) || cJSON_IsObject(a_json)) {
''')],
  demo=JS + '''int main(){cJSON*j=cJSON_Parse("{\\"a\\": 2.5, \\"s\\": \\"3.5\\", \\"t\\": true, \\"z\\": null, \\"v\\": [1]}");double a=-1;
if(extract_json_double(j,"a",&a)||a!=2.5)return bad("value");
char*n[]={"s","t","z","v","absent"};for(int i=0;i<5;i++)if(!extract_json_double(j,n[i],&a))return bad("an entry that is no number is accepted");
return 0;}
''')
OC = '''
static int go(int n,int mr,int mc,double eps,double*x,double*b,l1c_int*p,l1c_LBResult*r){
l1c_L1qcOpts o={.epsilon=eps,.mu=10,.lbtol=1e-3,.newton_tol=1e-3,.newton_max_iter=20,.verbose=0,.cg_tol=1e-8,.cg_maxiter=200,.cg_verbose=0,.lbiter=0,.l1_tol=0,.warm_start_cg=0,.dct_mode=dct1};
return l1qc_dct(mr,mc,x,n,b,p,o,r);}
'''
SEEDS['b21-estimate-anyway'] = dict(property='C21', needs='a solve that fails (here: a start outside the constraint because samples are repeated)',
  what='the image of the starting point is written to the output although the solver failed',
  edits=[('src/l1qc_dct.c', '''  *lb_res = l1c_l1qc_newton(mtot, eta_0, n, b_ours, opts, ax_funs);
  if (lb_res->status) {
    status = lb_res->status;
    goto exit;
  }

  /* We solved for eta in the DCT domain. Transform back to
     standard coordinates. */
  cblas_dcopy(mtot, eta_0, 1, x_out, 1);
  ax_funs.Mx(eta_0, x_out);

  if (opts.verbose > 0) {''', '''  *lb_res = l1c_l1qc_newton(mtot, eta_0, n, b_ours, opts, ax_funs);
  status = lb_res->status;

  /* We solved for eta in the DCT domain. Transform back to
     standard coordinates. */
  ax_funs.Mx(eta_0, x_out);

  if (status == 0 && opts.verbose > 0) {''')],
  demo=OC + '''int main(){enum{m=24,n=8};double*x=l1c_malloc_double(m),b[n];l1c_int p[n]={1,4,4,7,9,12,12,20};l1c_LBResult r;
for(int i=0;i<n;i++)b[i]=1+i%3;for(int i=0;i<m;i++)x[i]=7.5;
int st=go(n,m,1,1e-3,x,b,p,&r);
if(!st)return bad("infeasible start accepted");
for(int i=0;i<m;i++)if(x[i]!=7.5)return bad("output written by a failing call");
return 0;}
''')
SEEDS['b21-status-cleared'] = dict(property='C21', needs='a solver failure other than exhausted memory or a failed linear solve (e.g. a start outside the constraint because samples are repeated)',
  what='only two of the solver failures are passed on; after the others the call reports success and writes the output',
  edits=[('src/l1qc_dct.c', '''  if (lb_res->status) {
    status = lb_res->status;
    goto exit;
  }
''', '''  if (lb_res->status == L1C_OUT_OF_MEMORY || lb_res->status == L1C_CGSOLVE_FAILURE) {
    status = lb_res->status;
    goto exit;
  }
''')],
  demo=OC + '''int main(){enum{m=24,n=8};double*x=l1c_malloc_double(m),b[n];l1c_int p[n]={1,4,4,7,9,12,12,20};l1c_LBResult r;
for(int i=0;i<n;i++)b[i]=1+i%3;for(int i=0;i<m;i++)x[i]=7.5;
if(!go(n,m,1,1e-3,x,b,p,&r))return bad("a failed solve is reported as success");
for(int i=0;i<m;i++)if(x[i]!=7.5)return bad("output written by a failing call");
return 0;}
''')
SEEDS['b21-one-failed'] = dict(property='C21', link='-rdynamic -ldl', needs='the first of the two private buffers cannot be allocated and the second can (or the other way round)',
  what='when only one buffer was obtained the routine returns at once: buffer and transforms are never released',
  edits=[('src/l1qc_dct.c', '''  double* eta_0 = l1c_calloc_double(mtot);
  double* b_ours = l1c_malloc_double(n);

  if (!b_ours || !eta_0) {
    fprintf(stderr, "Memory Allocation failure in %s.\\n", __func__);
    status = L1C_OUT_OF_MEMORY;
    goto exit;
  }
''', '''  double* b_ours = NULL;
  double* eta_0 = l1c_calloc_double(mtot);
  if (!eta_0) {
    fprintf(stderr, "Memory Allocation failure in %s.\\n", __func__);
    status = L1C_OUT_OF_MEMORY;
    goto exit0;
  }
  b_ours = l1c_malloc_double(n);
  if (!b_ours) {
    fprintf(stderr, "Memory Allocation failure in %s.\\n", __func__);
    status = L1C_OUT_OF_MEMORY;
    goto exit;
  }
''')],
  demo='''#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fftw3.h>
static int on, cnt, failat = -1, live;
static void *own[4096];
int posix_memalign(void**o,size_t al,size_t n){if(on){if(cnt++==failat)return ENOMEM;}void*p=aligned_alloc(al,(n+al-1)/al*al);if(!p)return ENOMEM;*o=p;if(on&&live<4096)own[live++]=p;return 0;}
static void (*rf)(void*);
void free(void*p){if(!rf)rf=dlsym(RTLD_NEXT,"free");if(on)for(int i=0;i<live;i++)if(own[i]==p){own[i]=own[--live];break;}rf(p);}
''' + OC + '''
int main(){enum{m=24,n=8};double*x=l1c_malloc_double(m),b[n];l1c_int p[n]={1,4,5,7,9,12,13,20};l1c_LBResult r;
for(int i=0;i<n;i++)b[i]=1+i%3;
for(failat=0;failat<8;failat++){cnt=0;live=0;for(int i=0;i<m;i++)x[i]=7.5;on=1;int st=go(n,m,1,1e-1,x,b,p,&r);on=0;
if(cnt>failat){if(!st)return bad("exhausted memory not reported");for(int i=0;i<m;i++)if(x[i]!=7.5)return bad("output written");}
if(live)return bad("something is never released");}
return 0;}
''')
