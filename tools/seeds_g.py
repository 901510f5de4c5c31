"""seeds: C04, C22"""
SEEDS = {}
SEEDS['b04-two-columns'] = dict(property='C04', needs='an image exactly two pixels wide with at least three rows',
  what='for two-column images the right pixel of an inner row is updated from the old left pixel: that row is no longer a Gauss-Seidel sweep',
  edits=[('src/bregman.c', '''  for (i = 1; i < n - 1; i++) {
    /* The left pixel in row i.*/
    j = 0;
''', '''  for (i = 1; i < n - 1; i++) {
    if (m == 2) {
      /* No middle of the row: do both pixels at once. */
      const double u0 = u[i * m], u1 = u[i * m + 1];
      u[i * m] = (rhs[i * m] + (u1 + u[(i + 1) * m] + u[(i - 1) * m]) * lambda) *
                 one_by_mu_3lam;
      u[i * m + 1] =
          (rhs[i * m + 1] + (u0 + u[(i + 1) * m + 1] + u[(i - 1) * m + 1]) * lambda) *
          one_by_mu_3lam;
      continue;
    }
    /* The left pixel in row i.*/
    j = 0;
''')],
  demo='''#include "bregman.h"
int main(){BregFuncs b=breg_get_functions();
for(int n=2;n<6;n++)for(int m=2;m<6;m++){double u[64],v[64],r[64],mu=1.5,la=.75;
for(int i=0;i<n*m;i++){u[i]=v[i]=rnd();r[i]=rnd();}
for(int i=0;i<n;i++)for(int j=0;j<m;j++){int k=0;double s=r[i*m+j];
if(i>0){s+=la*v[(i-1)*m+j];k++;}if(i<n-1){s+=la*v[(i+1)*m+j];k++;}if(j>0){s+=la*v[i*m+j-1];k++;}if(j<m-1){s+=la*v[i*m+j+1];k++;}
v[i*m+j]=s/(mu+k*la);}
b.breg_anis_guass_seidel(n,m,u,r,mu,la);
for(int i=0;i<n*m;i++)if(!(fabs(u[i]-v[i])<1e-12))return bad("not a Gauss-Seidel sweep");}
return 0;}
''')
PYPRE = '''import sys, os
sys.path.insert(0, os.path.join(os.environ['ROOT'], '_build', 'interfaces', 'python'))
import numpy as np
import _l1cPy_module as L
def bad(m):
    print('BROKEN:', m)
    sys.exit(1)
'''
SEEDS['b22-strided-input'] = dict(property='C22', py=1, needs='measurements handed over as a strided (non-contiguous) view',
  what='the conversion no longer asks for contiguous data, so every other element of the parent array is read',
  edits=[('interfaces/python/l1cPy.c', '''  b_npA = (PyArrayObject*)PyArray_FROM_OTF(b_obj, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
  pix_idx_npA =
      (PyArrayObject*)PyArray_FROM_OTF(pix_idx_obj, NPY_INT, NPY_ARRAY_IN_ARRAY);

  /* If that didn't work, throw an exception. */
  if (b_npA == NULL || pix_idx_npA == NULL) {
    PyErr_SetString(PyExc_RuntimeError,
                    "Failed to initialize arrays. Is pix_idx an integer array?");
''', '''  b_npA = (PyArrayObject*)PyArray_FROM_OTF(b_obj, NPY_DOUBLE, NPY_ARRAY_ALIGNED);
  pix_idx_npA =
      (PyArrayObject*)PyArray_FROM_OTF(pix_idx_obj, NPY_INT, NPY_ARRAY_IN_ARRAY);

  /* If that didn't work, throw an exception. */
  if (b_npA == NULL || pix_idx_npA == NULL) {
    PyErr_SetString(PyExc_RuntimeError,
                    "Failed to initialize arrays. Is pix_idx an integer array?");
''')],
  demo=PYPRE + '''
rng = np.random.default_rng(3)
p = np.array([1, 4, 5, 9, 11, 17, 20, 22], dtype=np.int32)
big = rng.normal(size=16)
kw = dict(sigma=1e-3, mu=1e-3, tol=1e-2, n_continue=2, verbose=0, bp_mode=2)
x1, s1 = L.nesta_dctTV(6, 4, big[::2], p, **kw)
x2, s2 = L.nesta_dctTV(6, 4, big[::2].copy(), p, **kw)
if s1 != s2 or not np.allclose(x1, x2):
    bad('a strided view gives another result than a copy of it')
''')
SEEDS['b22-quick-return'] = dict(property='C22', py=1, needs='an argument error found after the arrays were converted (lengths that do not match)',
  what='the size check returns at once: both converted arrays are leaked on every rejected call',
  edits=[('interfaces/python/l1cPy.c', '''  mtot = mrow * mcol;
  n = PyArray_DIM(b_npA, 0);
  n_ = PyArray_DIM(pix_idx_npA, 0);

  if (mtot < n || n != n_) {
    PyErr_SetString(PyExc_ValueError,
                    "Must have len(x) > len(b) and len(b) == len(pix_idx).");
    goto fail;
  }

  /* Get pointers to the data as C-types. */
  b = (double*)PyArray_DATA(b_npA);
  pix_idx = (int*)PyArray_DATA(pix_idx_npA);

  /* Allocate memory for M*xk=f */
  x_ours = l1c_calloc_double(mtot);
  if (!x_ours) {
''', '''  mtot = mrow * mcol;
  n = PyArray_DIM(b_npA, 0);
  n_ = PyArray_DIM(pix_idx_npA, 0);

  if (mtot < n || n != n_) {
    return PyErr_Format(PyExc_ValueError,
                        "Must have len(x) > len(b) and len(b) == len(pix_idx) "
                        "(got %d, %d and %d).",
                        mtot,
                        n,
                        n_);
  }

  /* Get pointers to the data as C-types. */
  b = (double*)PyArray_DATA(b_npA);
  pix_idx = (int*)PyArray_DATA(pix_idx_npA);

  /* Allocate memory for M*xk=f */
  x_ours = l1c_calloc_double(mtot);
  if (!x_ours) {
''')],
  demo=PYPRE + '''
b = np.ones(5)
p = np.array([1, 4, 5, 9], dtype=np.int32)
r = sys.getrefcount(b), sys.getrefcount(p)
for _ in range(50):
    try:
        L.l1qc_dct(4, 4, b, p)
        bad('mismatched lengths accepted')
    except ValueError:
        pass
if (sys.getrefcount(b), sys.getrefcount(p)) != r:
    bad('references leaked by a rejected call')
''')
SEEDS['b22-rounded-index'] = dict(property='C22', py=1, needs='sample indices handed over as floating-point numbers',
  what='floating-point indices are silently truncated to integers instead of raising an exception',
  edits=[('interfaces/python/l1cPy.c', '''      (PyArrayObject*)PyArray_FROM_OTF(pix_idx_obj, NPY_INT, NPY_ARRAY_IN_ARRAY);

  /* If that didn't work, throw an exception. */
  if (b_npA == NULL || pix_idx_npA == NULL) {
    PyErr_SetString(PyExc_RuntimeError, "Failed to initialize arrays");
    goto fail;
''', '''      (PyArrayObject*)PyArray_FROM_OTF(pix_idx_obj, NPY_INT, NPY_ARRAY_IN_ARRAY | NPY_ARRAY_FORCECAST);

  /* If that didn't work, throw an exception. */
  if (b_npA == NULL || pix_idx_npA == NULL) {
    PyErr_SetString(PyExc_RuntimeError, "Failed to initialize arrays");
    goto fail;
''')],
  demo=PYPRE + '''
try:
    L.l1qc_dct(4, 4, np.ones(4), np.array([1.0, 4.5, 5.9, 9.0]), epsilon=.1)
except (RuntimeError, TypeError, ValueError):
    sys.exit(0)
bad('fractional sample indices accepted')
''')
