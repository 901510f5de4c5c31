/* stand-in for the interpreter side of the mex API (replay builds only): values live in plain records, an error jumps back to vcm_call */
#ifndef VCM_MEX_H
#define VCM_MEX_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
typedef struct vcm { int cls; long m, n, d; int cplx, sparse; double* re; char* base; char text[64]; int nf; char fn[24][32]; struct vcm* fv[24]; } mxArray;
typedef int64_t mwSize; typedef int64_t mwIndex; typedef char mxChar;
typedef enum { mxREAL = 0, mxCOMPLEX = 1 } mxComplexity;
mwSize mxGetM(const mxArray*); mwSize mxGetN(const mxArray*); mwSize mxGetNumberOfDimensions(const mxArray*); mwSize mxGetNumberOfElements(const mxArray*);
bool mxIsDouble(const mxArray*); bool mxIsInt32(const mxArray*); bool mxIsStruct(const mxArray*); bool mxIsChar(const mxArray*); bool mxIsScalar(const mxArray*);
bool mxIsComplex(const mxArray*); bool mxIsSparse(const mxArray*); bool mxIsEmpty(const mxArray*);
double* mxGetPr(const mxArray*); void* mxGetData(const mxArray*); double mxGetScalar(const mxArray*);
mxArray* mxGetField(const mxArray*, mwIndex, const char*); void mxSetField(mxArray*, mwIndex, const char*, mxArray*);
int mxGetString(const mxArray*, char*, mwSize);
mxArray* mxCreateDoubleMatrix(mwSize, mwSize, mxComplexity); mxArray* mxCreateDoubleScalar(double);
mxArray* mxCreateStructMatrix(mwSize, mwSize, int, const char**);
void mxDestroyArray(mxArray*);
void mexErrMsgIdAndTxt(const char*, const char*, ...); void mexErrMsgTxt(const char*); void mexWarnMsgTxt(const char*); void mexWarnMsgIdAndTxt(const char*, const char*, ...);
int mexPrintf(const char*, ...);
void* mxMalloc(size_t); void* mxCalloc(size_t, size_t); void mxFree(void*);
#endif
