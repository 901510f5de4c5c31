#include "config.h"
#include "l1c.h"
#include "l1qc_newton.h"
#include <string.h>
/* mode 0: run the real solver; 1: pretend it returned vcn_res and left vcn_sol in x */
int vcn_mode, vcn_calls, vcn_m, vcn_n, vcn_alias;
double vcn_x0[4096], vcn_b[4096], vcn_x1[4096], vcn_sol[4096];
l1c_LBResult vcn_res; l1c_L1qcOpts vcn_opts;
double *vcn_px, *vcn_pb;
l1c_LBResult vc_newton(l1c_int m, double* x, l1c_int n, double* b, l1c_L1qcOpts o, l1c_AxFuns ax) {
  vcn_calls++; vcn_m = m; vcn_n = n; vcn_opts = o; vcn_px = x; vcn_pb = b;
  for (int i = 0; i < m && i < 4096; i++) vcn_x0[i] = x[i];
  for (int i = 0; i < n && i < 4096; i++) vcn_b[i] = b[i];
  if (vcn_mode == 0) vcn_res = l1c_l1qc_newton(m, x, n, b, o, ax);
  else { /* the solver works with the operators and overwrites x */
    static double y[4096] __attribute__((aligned(64)));
    ax.Ax(x, y); ax.AtAx(x, y);
    for (int i = 0; i < m && i < 4096; i++) x[i] = vcn_sol[i];
  }
  for (int i = 0; i < m && i < 4096; i++) vcn_x1[i] = x[i];
  return vcn_res;
}
