/* replay builds only: the solver call made by l1qc_dct.c goes through a recording wrapper */
#include "config.h"
#include "l1c.h"
l1c_LBResult vc_newton(l1c_int m, double* x, l1c_int n, double* b, l1c_L1qcOpts o, l1c_AxFuns ax);
#define l1c_l1qc_newton vc_newton
