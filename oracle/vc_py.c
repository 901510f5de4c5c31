#include "config.h"
#include "l1c.h"
#include "nesta.h"
#include <string.h>
/* mode 0: the real function; 1: pretend it returned vcp_status and left vcp_sol / vcp_res */
int vcp_mode, vcp_calls, vcp_status, vcp_real, vcp_ints[16];
unsigned long long vcp_faults; int vcp_napi;
double vcp_img[4096] __attribute__((aligned(64)));
double vcp_dbls[16], vcp_sol[4096], vcp_x0[4096], vcp_b[4096]; int vcp_pix[4096];
l1c_L1qcOpts vcp_opts; l1c_NestaOpts vcp_nopts; l1c_LBResult vcp_res;
int vcp_fault(void) { int k = vcp_napi++; return k < 62 && (vcp_faults >> k & 1); }
static void in(double* x, int m, double* b, int n, int* pix) {
  vcp_calls++;
  if (x) for (int i = 0; i < m && i < 4096; i++) vcp_x0[i] = x[i];
  for (int i = 0; i < n && i < 4096; i++) vcp_b[i] = b[i];
  if (pix) for (int i = 0; i < n && i < 4096; i++) vcp_pix[i] = pix[i];
}
static int out(double* x, int m) {
  if (vcp_mode) { if (!vcp_status) for (int i = 0; i < m && i < 4096; i++) x[i] = vcp_sol[i]; }
  else { for (int i = 0; i < m && i < 4096; i++) vcp_sol[i] = x[i]; }
  return vcp_status;
}
int vcp_l1qc(l1c_int r, l1c_int c, double* x, l1c_int n, double* b, l1c_int* pix, l1c_L1qcOpts o, l1c_LBResult* lb) {
  in(x, r * c, b, n, pix); vcp_opts = o; vcp_ints[0] = r; vcp_ints[1] = c; vcp_ints[2] = n;
  if (vcp_mode) *lb = vcp_res; else { vcp_status = l1qc_dct(r, c, x, n, b, pix, o, lb); vcp_res = *lb; }
  return out(x, r * c);
}
int vcp_breg(l1c_int n, l1c_int m, double* u, double* f, double mu, double tol, int mi, int mj) {
  in(0, 0, f, n * m, 0); vcp_ints[0] = n; vcp_ints[1] = m; vcp_ints[2] = mi; vcp_ints[3] = mj; vcp_dbls[0] = mu; vcp_dbls[1] = tol;
  if (!vcp_mode) vcp_status = l1c_breg_anistropic_TV(n, m, u, f, mu, tol, mi, mj);
  return out(u, n * m);
}
int vcp_tv(l1c_int n, l1c_int r, l1c_int c, double av, double ah, DctMode d, BpMode bp, l1c_int* pix, l1c_AxFuns* ax) {
  vcp_ints[0] = r; vcp_ints[1] = c; vcp_ints[2] = n; vcp_ints[3] = d; vcp_ints[4] = bp; vcp_dbls[0] = av; vcp_dbls[1] = ah;
  for (int i = 0; i < n && i < 4096; i++) vcp_pix[i] = pix[i];
  return vcp_real = l1c_setup_dctTV_transforms(n, r, c, av, ah, d, bp, pix, ax);
}
int vcp_nesta(l1c_int m, double* x, l1c_int n, double* b, l1c_AxFuns ax, l1c_NestaOpts o) {
  in(x, m, b, n, 0); vcp_ints[5] = m; vcp_ints[6] = n; vcp_nopts = o;
  if (!vcp_mode) vcp_status = l1c_nesta(m, x, n, b, ax, o);
  else { static double t[8192] __attribute__((aligned(64))); ax.Aty(b, t); }
  int st = out(x, m);
  static double v[4096] __attribute__((aligned(64)));
  for (int i = 0; i < ax.m && i < 4096; i++) v[i] = i < m ? x[i] : 0;
  ax.Mx(v, vcp_img);
  vcp_ints[7] = ax.m;
  return st;
}
