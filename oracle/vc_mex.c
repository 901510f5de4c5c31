#define VC_NO_MACROS
#include "mex/mex.h"
#include <setjmp.h>
#include <stdarg.h>
static jmp_buf jb; static int armed;
static mxArray* made[64]; static int nmade; static void* blk[64]; static int nblk;
int vcm_oob, vcm_badpr;
#define G 64
mxArray* vcm_new(int cls, long m, long n, long d) {       /* the data is on an odd 8-byte boundary, between guard zones */
  mxArray* a = calloc(1, sizeof *a);
  a->cls = cls; a->m = m; a->n = n; a->d = d;
  size_t k = (size_t)m * n * 8;
  char* p = aligned_alloc(64, (2 * G + 64 + k + 63) / 64 * 64 + 64);
  memset(p, 0xA5, (2 * G + 64 + k + 63) / 64 * 64 + 64);
  a->base = p; a->re = (double*)(p + G + 8);
  memset(a->re, 0, k);
  return a;
}
static int guard(const mxArray* a) {
  size_t k = (size_t)a->m * a->n * 8;
  for (int i = 0; i < G + 8; i++) if ((unsigned char)a->base[i] != 0xA5) return 1;
  for (int i = 0; i < G - 8; i++) if ((unsigned char)((char*)a->re)[k + i] != 0xA5) return 1;
  return 0;
}
void vcm_free(mxArray* a) { if (!a) return; for (int i = 0; i < a->nf; i++) vcm_free(a->fv[i]); free(a->base); free(a); }
double* vcm_data(mxArray* a) { return a->re; }
void vcm_set(mxArray* a, const char* k, mxArray* v) { for (int i = 0; i < a->nf; i++) if (!strcmp(a->fn[i], k)) { a->fv[i] = v; return; } strncpy(a->fn[a->nf], k, 31); a->fv[a->nf++] = v; }
void vcm_flags(mxArray* a, int cplx, int sparse, const char* t) { a->cplx = cplx; a->sparse = sparse; if (t) strncpy(a->text, t, 63); }
mxArray* vcm_get(mxArray* a, const char* k) { for (int i = 0; i < a->nf; i++) if (!strcmp(a->fn[i], k)) return a->fv[i]; return 0; }
long vcm_dim(mxArray* a, int i) { return i == 0 ? a->m : i == 1 ? a->n : a->cls; }
int vcm_fields(mxArray* a) { return a->nf; }
int vcm_guard(mxArray* a) { return guard(a); }
/* 0: returned, 1: raised */
void mexFunction(int, mxArray**, int, const mxArray**);
int vcm_call(int nl, mxArray** pl, int nr, const mxArray** pr) {
  vcm_oob = vcm_badpr = 0; nmade = nblk = 0;
  if (setjmp(jb)) { armed = 0; for (int i = 0; i < nblk; i++) free(blk[i]); return 1; }
  armed = 1;
  mexFunction(nl, pl, nr, pr);
  armed = 0;
  for (int i = 0; i < nblk; i++) free(blk[i]);
  for (int i = 0; i < nmade; i++) if (guard(made[i])) vcm_oob = 1;
  return 0;
}
static mxArray* keep(mxArray* a) { if (nmade < 64) made[nmade++] = a; return a; }
mwSize mxGetM(const mxArray* a) { return a->m; }
mwSize mxGetN(const mxArray* a) { return a->n; }
mwSize mxGetNumberOfDimensions(const mxArray* a) { return a->d; }
mwSize mxGetNumberOfElements(const mxArray* a) { return a->m * a->n; }
bool mxIsDouble(const mxArray* a) { return a->cls == 0; }
bool mxIsInt32(const mxArray* a) { return a->cls == 1; }
bool mxIsStruct(const mxArray* a) { return a->cls == 2; }
bool mxIsChar(const mxArray* a) { return a->cls == 3; }
bool mxIsScalar(const mxArray* a) { return a->m * a->n == 1; }
bool mxIsEmpty(const mxArray* a) { return a->m * a->n == 0; }
bool mxIsComplex(const mxArray* a) { return a->cplx; }
bool mxIsSparse(const mxArray* a) { return a->sparse; }
double* mxGetPr(const mxArray* a) { if (a->cls || a->sparse || a->cplx) vcm_badpr = 1; return a->re; }
void* mxGetData(const mxArray* a) { return mxGetPr(a); }
double mxGetScalar(const mxArray* a) { if (a->m * a->n < 1 || (a->cls && a->cls != 1)) { vcm_badpr = 1; return 0; } return a->re[0]; }
mxArray* mxGetField(const mxArray* a, mwIndex i, const char* k) { return i ? 0 : vcm_get((mxArray*)a, k); }
void mxSetField(mxArray* a, mwIndex i, const char* k, mxArray* v) { (void)i; vcm_set(a, k, v); }
int mxGetString(const mxArray* a, char* b, mwSize n) {
  if (a->cls != 3 || (mwSize)strlen(a->text) >= n) { if (n > 0 && a->cls == 3) { memcpy(b, a->text, n - 1); b[n - 1] = 0; } return 1; }
  strcpy(b, a->text);
  return 0;
}
mxArray* mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity c) { mxArray* a = keep(vcm_new(0, m, n, 2)); a->cplx = c; return a; }
mxArray* mxCreateDoubleScalar(double v) { mxArray* a = keep(vcm_new(0, 1, 1, 2)); a->re[0] = v; return a; }
mxArray* mxCreateStructMatrix(mwSize m, mwSize n, int k, const char** f) { mxArray* a = keep(vcm_new(2, m, n, 2)); for (int i = 0; i < k; i++) vcm_set(a, f[i], 0); return a; }
void mxDestroyArray(mxArray* a) { (void)a; }
static void jump(void) { if (!armed) abort(); longjmp(jb, 1); }
void mexErrMsgIdAndTxt(const char* i, const char* f, ...) { (void)i; (void)f; jump(); }
void mexErrMsgTxt(const char* f) { (void)f; jump(); }
void mexWarnMsgTxt(const char* f) { (void)f; }
void mexWarnMsgIdAndTxt(const char* i, const char* f, ...) { (void)i; (void)f; }
int mexPrintf(const char* f, ...) { va_list a; va_start(a, f); int r = vprintf(f, a); va_end(a); return r; }
void* mxMalloc(size_t k) { void* p = malloc(k ? k : 1); if (nblk < 64) blk[nblk++] = p; return p; }
void* mxCalloc(size_t k, size_t s) { void* p = calloc(k ? k : 1, s); if (nblk < 64) blk[nblk++] = p; return p; }
void mxFree(void* p) { for (int i = 0; i < nblk; i++) if (blk[i] == p) { free(p); blk[i] = blk[--nblk]; return; } }
