SEEDS = {}
SEEDS['b01-blocked-tail'] = dict(property='C01', needs='a vector longer than 4096 whose length is not a multiple of 1024',
  what='l1c_daxpby_z leaves the tail of long vectors unwritten',
  edits=[('src/l1c_math.c', '''  for (i = 0; i < N; i++) {
    z_[i] = alpha * x_[i] + beta * y_[i];
  }''', '''  for (i = 0; i < (N > 4096 ? N / 1024 * 1024 : N); i++) {
    z_[i] = alpha * x_[i] + beta * y_[i];
  }''')],
  demo='''void l1c_daxpby_z(l1c_int,double,double*,double,double*,double*);
int main(){int n=5000;double*x=l1c_malloc_double(n),*y=l1c_malloc_double(n),*z=l1c_malloc_double(n);
for(int i=0;i<n;i++){x[i]=rnd();y[i]=rnd();z[i]=1e9;}
l1c_daxpby_z(n,2.0,x,-3.0,y,z);
for(int i=0;i<n;i++) if(fabs(z[i]-(2*x[i]-3*y[i]))>1e-9) return bad("z != alpha x + beta y");
return 0;}
''')
SEEDS['b02-tiny-reference'] = dict(property='C02', needs='a reference vector y whose squared norm is below 1e-12',
  what='the relative error silently becomes an absolute one for small-amplitude signals',
  edits=[('src/l1c_math.c', '  return sqrt(nrm / ynrm);', '''  if (ynrm < 1e-12) {
    ynrm = 1.0; /* avoid dividing by (almost) zero */
  }
  return sqrt(nrm / ynrm);''')],
  demo='''double l1c_dnrm2_rel_err(l1c_int,double*,double*);
int main(){int n=16;double*x=l1c_malloc_double(n),*y=l1c_malloc_double(n);
for(int i=0;i<n;i++){y[i]=1e-8*(1+i%3);x[i]=2*y[i];}
double r=l1c_dnrm2_rel_err(n,x,y);
if(fabs(r-1.0)>1e-9) return bad("relative error of x=2y is not 1");
return 0;}
''')
SEEDS['b03-dyt-wide'] = dict(property='C03', needs='more rows than columns by a factor above 4 (n > 4*m)',
  what='l1c_DyT drops the contribution of the second to last row for tall images, so it is no longer the adjoint of l1c_Dy',
  edits=[('src/TV.c', '    Ai = i < (n - 1) * m ? A[i] : 0;', '    Ai = i < (n - 1 - (n > 4 * m)) * m ? A[i] : 0;')],
  demo='''void l1c_Dy(l1c_int,l1c_int,double,double*,double*);void l1c_DyT(l1c_int,l1c_int,double,double*,double*);
int main(){int n=19,m=4,N=n*m;double*x=l1c_malloc_double(N),*y=l1c_malloc_double(N),*a=l1c_malloc_double(N),*b=l1c_malloc_double(N);
for(int i=0;i<N;i++){x[i]=rnd();y[i]=rnd();}
l1c_Dy(n,m,1.5,x,a);l1c_DyT(n,m,1.5,y,b);
double s=0,t=0;for(int i=0;i<N;i++){s+=a[i]*y[i];t+=x[i]*b[i];}
if(fabs(s-t)>1e-9) return bad("<Dy x,y> != <x,DyT y>");
return 0;}
''')
SEEDS['b05-first-sweep-cap'] = dict(property='C05', needs='more than two Gauss-Seidel sweeps per iteration (max_jac_iter > 2)',
  what='the first outer iteration silently performs at most two sweeps, so the iterates are not those of the requested method',
  edits=[('src/bregman.c', '    for (int k = 1; k <= max_jac_iter; k++) {', '    int n_sweep = (iter == 1 && max_jac_iter > 2) ? 2 : max_jac_iter;\n    for (int k = 1; k <= n_sweep; k++) {')],
  demo='''#include "bregman.h"
int main(){int n=6,m=5,N=n*m;double*f=l1c_malloc_double(N),*u=l1c_malloc_double(N),*v=l1c_malloc_double(N),*r=l1c_malloc_double(N);
BregFuncs b=breg_get_functions();double mu=1.3;
for(int i=0;i<N;i++){f[i]=rnd();v[i]=f[i];r[i]=mu*f[i];}
if(l1c_breg_anistropic_TV(n,m,u,f,mu,1e-30,1,4)) return bad("status");
for(int k=0;k<4;k++) b.breg_anis_guass_seidel(n,m,v,r,mu,2*mu);
for(int i=0;i<N;i++) if(fabs(u[i]-v[i])>1e-12) return bad("first iterate is not four sweeps");
return 0;}
''')
SEEDS['b06-nan-step'] = dict(property='C06', needs='an objective that is undefined (NaN) at the first two trial points',
  what='after a NaN the step is reset to beta*s instead of shrinking further, so a feasible smaller step is never tried',
  edits=[('src/linesearch.c', '''    if (isnan(fx0_prime)) {
      step = ls_params.beta * step;
      continue;''', '''    if (isnan(fx0_prime)) {
      step = ls_params.beta * ls_params.s;
      continue;''')],
  demo='''#include "l1qc_newton.h"
#include "linesearch.h"
static double f(void*d,double*x){ return x[0]>0.3?NAN:-x[0]; }
int main(){double*x=l1c_malloc_double(4),*dx=l1c_malloc_double(4),*w=l1c_malloc_double(4);
for(int i=0;i<4;i++){x[i]=0;dx[i]=0;} dx[0]=1;double fx=0;
LSParams p={.alpha=0.01,.beta=0.5,.s=1.0};
LSStat s=l1c_linesearch(4,x,dx,&fx,-1.0,NULL,f,p,w);
if(s.status!=0||fabs(s.step-0.25)>1e-12) return bad("step 0.25 is acceptable but was not found");
return 0;}
''')
SEEDS['b07-warm-start-best'] = dict(property='C07', needs='a warm start whose residual is already below the tolerance while the first CG step makes the residual larger (but still below it)',
  what='the returned vector is not the best one visited and does not match the reported residual',
  edits=[('src/cgsolve.c', '''  // x = bestx;
  cblas_dcopy((int)N, bestx, 1, x, 1);
  cg_result->cgres = best_rel_res;
  cg_result->cgiter = min(iter, cg_params.max_iter); // Loops increment before exiting.

  return 0;
}

/**
 * @ingroup lin_solve
 *
 * Preconditioned''', '''  // x = bestx, unless the last iterate already met the tolerance.
  if (rel_res >= cg_params.tol) {
    cblas_dcopy((int)N, bestx, 1, x, 1);
  }
  cg_result->cgres = best_rel_res;
  cg_result->cgiter = min(iter, cg_params.max_iter); // Loops increment before exiting.

  return 0;
}

/**
 * @ingroup lin_solve
 *
 * Preconditioned''')],
  demo='''static double dg[4]={1,10,100,1000};
static void A(l1c_int n,double*x,double*b,void*d){for(int i=0;i<n;i++)b[i]=dg[i]*x[i];}
int main(){int n=4;double*x=l1c_malloc_double(n),*b=l1c_malloc_double(n),*D[4];for(int i=0;i<4;i++)D[i]=l1c_malloc_double(n);
double e[4]={1e-2,0,0,1e-6};
for(int t=0;t<2000;t++){
 double bb=0,rr=0;
 for(int i=0;i<n;i++){b[i]=1;x[i]=b[i]/dg[i]+1e-4*rnd()*(i==0?1:(i==3?1e-3:1e-2));bb+=b[i]*b[i];}
 for(int i=0;i<n;i++){double r=b[i]-dg[i]*x[i];rr+=r*r;}
 l1c_CgResults res;l1c_CgParams p={.verbose=0,.max_iter=50,.tol=0.5};
 l1c_cgsolve(n,x,b,D,A,NULL,&res,p);
 double r2=0;for(int i=0;i<n;i++){double r=b[i]-dg[i]*x[i];r2+=r*r;}
 if(sqrt(r2/bb)>res.cgres*(1+1e-6)+1e-12) return bad("returned x does not have the reported residual");
 if(r2>rr*(1+1e-6)) return bad("returned x is worse than the start");
}
return 0;}
''')
