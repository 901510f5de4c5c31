/* replay builds only: library calls made by interfaces/mex go through recording wrappers, allocations through the counting allocator */
#include "vc_alloc.h"
#include "config.h"
#include "l1c.h"
#include "nesta.h"
int vcp_l1qc(l1c_int, l1c_int, double*, l1c_int, double*, l1c_int*, l1c_L1qcOpts, l1c_LBResult*);
int vcp_breg(l1c_int, l1c_int, double*, double*, double, double, int, int);
int vcp_tv(l1c_int, l1c_int, l1c_int, double, double, DctMode, BpMode, l1c_int*, l1c_AxFuns*);
int vcp_nesta(l1c_int, double*, l1c_int, double*, l1c_AxFuns, l1c_NestaOpts);
#define l1qc_dct vcp_l1qc
#define l1c_breg_anistropic_TV vcp_breg
#define l1c_setup_dctTV_transforms vcp_tv
#define l1c_nesta vcp_nesta
