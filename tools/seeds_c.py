SEEDS = {}
SEEDS['b13-clipped-multiplier'] = dict(property='C13', needs='a point whose gradient step lies more than a thousand noise levels from the feasible set',
  what='the multiplier of the projection is clipped, so that the projected point is not feasible',
  edits=[('src/nesta.c', '''  lambda = max(0, a0);
''', '''  /* Keep the weights well scaled when q is far away from the feasible set. */
  lambda = min(max(0, a0), 1000.0 * Lmu);
''')],
  demo='''#include "nesta.h"
void l1c_nesta_project(l1c_NestaProb* NP, double* xx, double* g, double* vk);
static int m=6,n=2;
static void Ax(double*x,double*y){y[0]=x[1];y[1]=x[4];}
static void Aty(double*y,double*x){for(int i=0;i<m;i++)x[i]=0;x[1]=y[0];x[4]=y[1];}
int main(){l1c_NestaProb P;memset(&P,0,sizeof P);P.n=n;P.m=m;P.p=m;
double*x=l1c_malloc_double(m),*g=l1c_malloc_double(m),*v=l1c_malloc_double(m),*y=l1c_malloc_double(m);
P.dwork1=l1c_malloc_double(m);P.dwork2=l1c_malloc_double(m);P.Atb=l1c_malloc_double(m);P.b=l1c_malloc_double(n);
P.ax_funs.Ax=Ax;P.ax_funs.Aty=Aty;P.ax_funs.Rx=Ax;P.ax_funs.Rty=Aty;P.L=1;P.mu_j=0.5;P.sigma=1e-3;P.b[0]=3;P.b[1]=-4;Aty(P.b,P.Atb);
for(int s=0;s<2;s++){P.sigma=s?1e-3:1;for(int i=0;i<m;i++){x[i]=rnd();g[i]=rnd();}
l1c_nesta_project(&P,x,g,v);Ax(v,y);double r=hypot(y[0]-P.b[0],y[1]-P.b[1]);
if(!(r<=P.sigma*(1+1e-8)))return bad("the projection is not feasible");}
return 0;}
''')
SEEDS['b14-verbose-stop'] = dict(property='C14', needs='a verbosity above 1, so that some iterations are not reported',
  what='the stop test is only made in the iterations that are reported, so the result depends on the verbosity',
  edits=[('src/nesta.c', '''      rel_delta_fmu = fabs(NP->fx - fbar) / fbar;
      if (opts.verbose > 0 && (((k + 1) % opts.verbose) == 0)) {
        l1c_printf("%d     %.3e       %.2e   \\n", k + 1, NP->fx, rel_delta_fmu);
      }
''', '''      rel_delta_fmu = fabs(NP->fx - fbar) / fbar;
      if (opts.verbose > 0) {
        if (((k + 1) % opts.verbose) != 0) {
          continue;
        }
        l1c_printf("%d     %.3e       %.2e   \\n", k + 1, NP->fx, rel_delta_fmu);
      }
''')],
  demo='''static int m=12,n=5;static int sel[5]={1,4,6,9,10};
static void Ax(double*x,double*y){for(int i=0;i<n;i++)y[i]=x[sel[i]];}
static void Aty(double*y,double*x){for(int i=0;i<m;i++)x[i]=0;for(int i=0;i<n;i++)x[sel[i]]=y[i];}
static double W[12][12];
static void Wz(double*z,double*x){for(int i=0;i<m;i++){double s=0;for(int j=0;j<m;j++)s+=W[i][j]*z[j];x[i]=s;}}
static void Wtx(double*x,double*z){for(int j=0;j<m;j++){double s=0;for(int i=0;i<m;i++)s+=W[i][j]*x[i];z[j]=s;}}
int main(){l1c_AxFuns f;memset(&f,0,sizeof f);f.n=n;f.m=m;f.p=m;f.q=m;f.norm_W=1;f.Ax=Ax;f.Aty=Aty;f.Rx=Ax;f.Rty=Aty;f.Wz=Wz;f.Wtx=Wtx;
for(int j=0;j<m;j++)for(int i=0;i<m;i++)W[i][j]=sqrt((j?2.0:1.0)/m)*cos(M_PI*(i+.5)*j/m);
double*b=l1c_malloc_double(n),*x0=l1c_malloc_double(m),*x1=l1c_malloc_double(m);for(int i=0;i<n;i++)b[i]=2*rnd();
l1c_NestaOpts o;memset(&o,0,sizeof o);o.mu=1e-2;o.tol=1e-3;o.sigma=.1;o.n_continue=3;o.verbose=0;
if(l1c_nesta(m,x0,n,b,f,o))return bad("status");
o.verbose=7;if(l1c_nesta(m,x1,n,b,f,o))return bad("status");
for(int i=0;i<m;i++)if(x0[i]!=x1[i])return bad("the result depends on the verbosity");
return 0;}
''')
