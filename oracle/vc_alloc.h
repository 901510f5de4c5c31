#ifndef VC_ALLOC_H
#define VC_ALLOC_H
/* test doubles for the allocator: fault injection, leak accounting and red zones (only for /verif's replay builds) */
#include <stdlib.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void* vc_malloc(size_t); void* vc_calloc(size_t, size_t); void vc_free(void*);
int vc_posix_memalign(void**, size_t, size_t); void* vc_mm_malloc(size_t, size_t); void vc_mm_free(void*);
#ifdef __cplusplus
}
#endif
#if !defined(VC_NO_MACROS)
#include <mm_malloc.h>
#include <stdio.h>
#ifndef __cplusplus
#include <fftw3.h>
#include <cblas.h>
fftw_plan vc_plan_r2r_1d(int, double*, double*, fftw_r2r_kind, unsigned);
fftw_plan vc_plan_r2r_2d(int, int, double*, double*, fftw_r2r_kind, fftw_r2r_kind, unsigned);
void vc_destroy_plan(fftw_plan);
#define fftw_plan_r2r_1d vc_plan_r2r_1d
#define fftw_plan_r2r_2d vc_plan_r2r_2d
#define fftw_destroy_plan vc_destroy_plan
#endif
#ifndef __cplusplus
FILE* vc_fopen(const char*, const char*); int vc_fclose(FILE*); size_t vc_fread(void*, size_t, size_t, FILE*);
#define fopen vc_fopen
#define fclose vc_fclose
#define fread vc_fread
#endif
#define malloc vc_malloc
#define calloc vc_calloc
#define free vc_free
#define posix_memalign vc_posix_memalign
#define _mm_malloc vc_mm_malloc
#define _mm_free vc_mm_free
#endif
#endif
