#define VC_NO_MACROS
#define _POSIX_C_SOURCE 200112L
#include "vc_alloc.h"
#include <stdint.h>
#include <string.h>
#include <stdio.h>
#include <pthread.h>
#include <fftw3.h>
#define RZ 128
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define __SANITIZE_ADDRESS__ 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/asan_interface.h>
#define POISON(a, n) __asan_poison_memory_region((a), (n))
#define UNPOISON(a, n) __asan_unpoison_memory_region((a), (n))
#else
#define POISON(a, n) ((void)0)
#define UNPOISON(a, n) ((void)0)
#endif
typedef struct { void* p; void* raw; size_t n; int kind; } Rec;
static Rec recs[65536]; static int nrec;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
unsigned long long vc_mask, vc_plan_mask;
long vc_count, vc_fail_at = -1, vc_fail_from = -1, vc_plan_count, vc_plan_fail_at = -1, vc_plans_live;
int vc_bad_free, vc_bad_zone, vc_plan_bad;
static void* plans[4096]; static int nplans;
char vc_msg[256];
int vc_fill = 0xCB; void vc_setfill(int v) { vc_fill = v; }
static void* get(size_t al, size_t n, int kind) {
  pthread_mutex_lock(&mu);
  long c = vc_count++;
  void* r = NULL;
  if (!(c == vc_fail_at || (c < 64 && (vc_mask >> c & 1)) || (vc_fail_from >= 0 && c >= vc_fail_from))) {
    if (al < 64) al = 64;
    char* raw = NULL;
    if (posix_memalign((void**)&raw, al, n + 2 * RZ + al) == 0 && nrec < 65536) {
      size_t pre = (RZ + al - 1) / al * al;
      /* plain malloc results are deliberately only 16-byte aligned */
      char* p = raw + pre + (kind == 0 ? 16 : 0);
      memset(raw, 0xA5, (p - raw)); memset(p, vc_fill, n); memset(p + n, 0xA5, RZ - 16);
      POISON(raw, p - raw); POISON(p + n, RZ - 16);
      recs[nrec].p = p; recs[nrec].raw = raw; recs[nrec].n = n; recs[nrec].kind = kind; nrec++;
      r = p;
    }
  }
  pthread_mutex_unlock(&mu);
  return r;
}
static void zone(Rec* r) {
#ifdef __SANITIZE_ADDRESS__
  return;
#endif
  unsigned char* raw = r->raw; unsigned char* p = r->p;
  for (unsigned char* q = raw; q < p; q++) if (*q != 0xA5) { vc_bad_zone++; return; }
  for (size_t i = 0; i < RZ - 16; i++) if (p[r->n + i] != 0xA5) { vc_bad_zone++; return; }
}
static void put(void* p) {
  if (!p) return;
  pthread_mutex_lock(&mu);
  int i; for (i = 0; i < nrec; i++) if (recs[i].p == p) break;
  if (i == nrec) { vc_bad_free++; pthread_mutex_unlock(&mu); return; }
  zone(&recs[i]);
  memset(p, 0xDD, recs[i].n);
  UNPOISON(recs[i].raw, (char*)p - (char*)recs[i].raw); UNPOISON((char*)p + recs[i].n, RZ - 16);
  free(recs[i].raw);
  recs[i] = recs[--nrec];
  pthread_mutex_unlock(&mu);
}
void* vc_malloc(size_t n) { return get(16, n, 0); }
void* vc_calloc(size_t a, size_t b) { void* p = get(16, a * b, 0); if (p) memset(p, 0, a * b); return p; }
void vc_free(void* p) { put(p); }
int vc_posix_memalign(void** out, size_t al, size_t n) { void* p = get(al, n, 1); if (!p) return 12; *out = p; return 0; }
void* vc_mm_malloc(size_t n, size_t al) { return get(al, n, 1); }
void vc_mm_free(void* p) { put(p); }
static fftw_plan reg(fftw_plan p) { if (p && nplans < 4096) { plans[nplans++] = p; vc_plans_live++; } return p; }
fftw_plan vc_plan_r2r_1d(int n, double* a, double* b, fftw_r2r_kind k, unsigned f) {
  long c = vc_plan_count++; if (c == vc_plan_fail_at || (c < 64 && (vc_plan_mask >> c & 1))) return NULL;
  return reg(fftw_plan_r2r_1d(n, a, b, k, f)); }
fftw_plan vc_plan_r2r_2d(int n, int m, double* a, double* b, fftw_r2r_kind k, fftw_r2r_kind l, unsigned f) {
  long c = vc_plan_count++; if (c == vc_plan_fail_at || (c < 64 && (vc_plan_mask >> c & 1))) return NULL;
  return reg(fftw_plan_r2r_2d(n, m, a, b, k, l, f)); }
void vc_destroy_plan(fftw_plan p) {
  if (!p) return;
  for (int i = 0; i < nplans; i++) if (plans[i] == p) { plans[i] = plans[--nplans]; vc_plans_live--; fftw_destroy_plan(p); return; }
  vc_plan_bad++;
}
int vc_live(void) { return nrec; }
int vc_checkzones(void) { for (int i = 0; i < nrec; i++) zone(&recs[i]); return vc_bad_zone; }
void vc_masks(unsigned long long a, unsigned long long b) { vc_mask = a; vc_plan_mask = b; }
void vc_reset(void) { vc_mask = vc_plan_mask = 0; for (int i = 0; i < nrec; i++) { UNPOISON(recs[i].raw, (char*)recs[i].p - (char*)recs[i].raw); UNPOISON((char*)recs[i].p + recs[i].n, RZ - 16); free(recs[i].raw); } nrec = 0; nplans = 0; vc_plans_live = 0; vc_count = 0; vc_fail_at = -1; vc_fail_from = -1;
  vc_plan_count = 0; vc_plan_fail_at = -1; vc_bad_free = vc_bad_zone = vc_plan_bad = 0; }
void vc_set(long fail_at, long fail_from, long plan_fail) { vc_count = 0; vc_plan_count = 0; vc_fail_at = fail_at; vc_fail_from = fail_from; vc_plan_fail_at = plan_fail; }
long vc_get(int w) { switch (w) { case 0: return vc_count; case 1: return nrec; case 2: return vc_bad_free; case 3: return vc_checkzones(); case 4: return vc_plans_live; case 5: return vc_plan_bad; case 6: return vc_plan_count; } return -1; }

/* streams */
static FILE* strs[64]; static int nstrs; long vc_fread_fail = -1, vc_fread_count; int vc_str_bad;
FILE* vc_fopen(const char* p, const char* m) { FILE* f = fopen(p, m); if (f && nstrs < 64) strs[nstrs++] = f; return f; }
int vc_fclose(FILE* f) {
  for (int i = 0; i < nstrs; i++) if (strs[i] == f) { strs[i] = strs[--nstrs]; return fclose(f); }
  vc_str_bad++; return -1; }
size_t vc_fread(void* p, size_t s, size_t n, FILE* f) {
  if (vc_fread_count++ == vc_fread_fail) { /* a read error part of the way */
    size_t k = fread(p, 1, s * n / 2, f); return s ? k / s : 0; }
  return fread(p, s, n, f); }
void vc_streams(long at) { while (nstrs) fclose(strs[--nstrs]); vc_fread_fail = at; vc_fread_count = 0; vc_str_bad = 0; }
int vc_streams_live(void) { return nstrs + 1000 * vc_str_bad; }
