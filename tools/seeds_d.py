SEEDS = {}
SEEDS['b15-clipped-curvature'] = dict(property='C15', needs='an iterate within 1e-4 of the boundary of the constraint, so that 1/fe^2 is large',
  what='the rank-one weight of the reduced Hessian is clipped near the boundary, so that the operator solved is not the second derivative',
  edits=[('src/l1qc_newton.c', '''  h11p_data.one_by_fe_sqrd = 1.0 / (fe * fe);
''', '''  /* Keep the rank-one term bounded close to the boundary. */
  h11p_data.one_by_fe_sqrd = min(1.0 / (fe * fe), 1e8);
''')],
  demo='''#include "l1qc_newton.h"
static int m=4,n=2;
static void Ax(double*x,double*y){y[0]=x[0]+.5*x[1];y[1]=x[2]-x[3];}
static void Aty(double*y,double*x){x[0]=y[0];x[1]=.5*y[0];x[2]=y[1];x[3]=-y[1];}
static void AtAx(double*x,double*z){double y[2];Ax(x,y);Aty(y,z);}
int main(){double eps=.1;l1c_L1qcOpts o;memset(&o,0,sizeof o);o.epsilon=eps;o.tau=2;
l1c_AxFuns f;memset(&f,0,sizeof f);f.n=n;f.m=m;f.p=m;f.q=m;f.Ax=Ax;f.Aty=Aty;f.AtAx=AtAx;
double*x=l1c_malloc_double(m),*u=l1c_malloc_double(m),*b=l1c_malloc_double(n),*h=l1c_malloc_double(m),*y=l1c_malloc_double(m);
for(int t=0;t<2;t++){double gap=t?2e-5:2e-2;
for(int i=0;i<m;i++){x[i]=rnd();u[i]=fabs(x[i])+.3;}
Ax(x,b);b[0]-=.6*eps*(1-gap);b[1]-=.8*eps*(1-gap);
l1c_l1qcProb P;if(_l1c_l1qcProb_new(&P,m,n,b,o,f))return 97;P.tau=2;
_l1c_l1qc_f_eval(&P,x,u);double fe=P.fe_val;
l1c_CgParams cp={.verbose=0,.max_iter=300,.tol=1e-13};l1c_CgResults cr;
if(_l1c_l1qc_descent_dir(&P,cp,&cr))return bad("not solved");
double atr[4],s=0,rr=0,ww=0;Aty(P.r,atr);AtAx(P.dx,y);for(int i=0;i<m;i++)s+=atr[i]*P.dx[i];
for(int i=0;i<m;i++){double sx=P.sig11[i]-P.sig12[i]*P.sig12[i]/P.sig11[i];
double d=P.w1p[i]-(sx*P.dx[i]-y[i]/fe+s/(fe*fe)*atr[i]);rr+=d*d;ww+=P.w1p[i]*P.w1p[i];}
if(!(sqrt(rr/ww)<1e-4))return bad("the direction does not solve the Newton system");
_l1c_l1qcProb_delete(&P);}
return 0;}
''')
SEEDS['b16-one-side-only'] = dict(property='C16', needs='an entry whose u decreases faster than x changes, so that both bounds approach it',
  what='the two bounds are visited in one loop that looks at the second only where the first does not bind, so the step can leave |x|<u',
  edits=[('src/l1qc_newton.c', '''  min_u1 = INFINITY;
  for (i = 0; i < m; i++) {
    if (!(Prb->dx[i] - Prb->du[i] > 0)) {
      continue;
    } else {
      min_u1 = min(min_u1, -Prb->fu1[i] / (Prb->dx[i] - Prb->du[i]));
    }
  }
  min_u2 = INFINITY;
  for (i = 0; i < m; i++) {
    if (!(-Prb->dx[i] - Prb->du[i] > 0)) {
      continue;
    } else {
      min_u2 = min(min_u2, -Prb->fu2[i] / (-Prb->dx[i] - Prb->du[i]));
    }
  }
''', '''  min_u1 = INFINITY;
  min_u2 = INFINITY;
  for (i = 0; i < m; i++) {
    if (Prb->dx[i] - Prb->du[i] > 0) {
      min_u1 = min(min_u1, -Prb->fu1[i] / (Prb->dx[i] - Prb->du[i]));
    } else if (-Prb->dx[i] - Prb->du[i] > 0) {
      min_u2 = min(min_u2, -Prb->fu2[i] / (-Prb->dx[i] - Prb->du[i]));
    }
  }
''')],
  demo='''#include "l1qc_newton.h"
static int m=4,n=2;
static void Ax(double*x,double*y){y[0]=x[0]+.5*x[1];y[1]=x[2]-x[3];}
static void Aty(double*y,double*x){x[0]=y[0];x[1]=.5*y[0];x[2]=y[1];x[3]=-y[1];}
static void AtAx(double*x,double*z){double y[2];Ax(x,y);Aty(y,z);}
int main(){double eps=1;l1c_L1qcOpts o;memset(&o,0,sizeof o);o.epsilon=eps;o.tau=2;
l1c_AxFuns f;memset(&f,0,sizeof f);f.n=n;f.m=m;f.p=m;f.q=m;f.Ax=Ax;f.Aty=Aty;f.AtAx=AtAx;
double*x=l1c_malloc_double(m),*u=l1c_malloc_double(m),*b=l1c_malloc_double(n);
for(int t=0;t<200;t++){
for(int i=0;i<m;i++){x[i]=rnd();u[i]=fabs(x[i])+.3+.2*rnd();}
Ax(x,b);b[0]-=.3;b[1]+=.2;
l1c_l1qcProb P;if(_l1c_l1qcProb_new(&P,m,n,b,o,f))return 97;
_l1c_l1qc_f_eval(&P,x,u);
for(int i=0;i<m;i++){P.dx[i]=.3*rnd();P.du[i]=-fabs(rnd());}
double s=_l1c_l1qc_find_max_step(&P);
if(!(s>0&&s<=.99+1e-12))return bad("step range");
for(int i=0;i<m;i++)if(!(fabs(x[i]+s*P.dx[i])<u[i]+s*P.du[i]))return bad("the step leaves |x|<u");
_l1c_l1qcProb_delete(&P);}
return 0;}
''')
