/* replay builds only: calls made by interfaces/python/l1cPy.c go through recording (and, on request, failing) wrappers */
#include "config.h"
#include "l1c.h"
#include "nesta.h"
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#include <numpy/arrayobject.h>
#include <numpy/ndarraytypes.h>
int vcp_l1qc(l1c_int, l1c_int, double*, l1c_int, double*, l1c_int*, l1c_L1qcOpts, l1c_LBResult*);
int vcp_breg(l1c_int, l1c_int, double*, double*, double, double, int, int);
int vcp_tv(l1c_int, l1c_int, l1c_int, double, double, DctMode, BpMode, l1c_int*, l1c_AxFuns*);
int vcp_nesta(l1c_int, double*, l1c_int, double*, l1c_AxFuns, l1c_NestaOpts);
int vcp_fault(void);
static PyObject* vcp_otf(PyObject* o, int t, int f) {
  if (vcp_fault()) return PyErr_NoMemory();
  return PyArray_FROM_OTF(o, t, f);
}
static PyObject* vcp_new(int nd, npy_intp* d, int t) {
  if (vcp_fault()) return PyErr_NoMemory();
  return PyArray_SimpleNew(nd, d, t);
}
static PyObject* vcp_build(const char* fmt, ...) {
  va_list a;
  va_start(a, fmt);
  PyObject* r = Py_VaBuildValue(fmt, a);
  va_end(a);
  if (r && fmt[0] && fmt[1] && vcp_fault()) { Py_DECREF(r); return PyErr_NoMemory(); }
  return r;
}
#undef PyArray_FROM_OTF
#undef PyArray_SimpleNew
#define PyArray_FROM_OTF(o, t, f) vcp_otf((PyObject*)(o), t, f)
#define PyArray_SimpleNew vcp_new
#define Py_BuildValue vcp_build
#define l1qc_dct vcp_l1qc
#define l1c_breg_anistropic_TV vcp_breg
#define l1c_setup_dctTV_transforms vcp_tv
#define l1c_nesta vcp_nesta
