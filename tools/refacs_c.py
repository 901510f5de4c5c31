"""behaviour-preserving edits of the bindings (C22, C23)"""
PYF = 'interfaces/python/l1cPy.c'
ML, MB, MN, MU = ('interfaces/mex/%s.c' % f for f in ('l1qc_dct_mex', 'breg_anistropic_TV_mex', 'nesta_dctTV_mex', 'l1c_mex_utils'))
R = {}
LOOP = '''  for (i = 0; i < n; i++) {
    idx = ((l1c_int)pix_idx_double[i]) - 1;
    if (idx < 0 || idx > mtot - 1) {
      status = L1C_INVALID_ARGUMENT;
      goto exit;
    }
    pix_idx[i] = idx;
  }
'''
R['mx-idx-helper'] = (['C23'], [(ML, 'void mexFunction(', '''static int convert_indices(l1c_int n, const double* d, l1c_int mtot, l1c_int* out) {
  for (l1c_int i = 0; i < n; i++) {
    l1c_int idx = ((l1c_int)d[i]) - 1;
    if (idx < 0 || idx >= mtot) {
      return L1C_INVALID_ARGUMENT;
    }
    out[i] = idx;
  }
  return 0;
}

void mexFunction('''), (ML, LOOP, '''  status = convert_indices(n, pix_idx_double, mtot, pix_idx);
  if (status) {
    goto exit;
  }
'''), (ML, ', idx = 0', '')])
R['mx-idx-while'] = (['C23'], [(ML, LOOP, '''  i = 0;
  while (i < n) {
    idx = (l1c_int)pix_idx_double[i];
    if (idx < 1 || idx > mtot) {
      status = L1C_INVALID_ARGUMENT;
      goto exit;
    }
    pix_idx[i++] = idx - 1;
  }
''')])
R['mx-idx-two-loops'] = (['C23'], [(ML, LOOP, '''  for (i = 0; i < n; i++) {
    pix_idx[i] = ((l1c_int)pix_idx_double[i]) - 1;
  }
  for (i = 0; i < n; i++) {
    if (pix_idx[i] < 0 || pix_idx[i] > mtot - 1) {
      status = L1C_INVALID_ARGUMENT;
      goto exit;
    }
  }
'''), (ML, ', idx = 0', '')])
R['mx-idx-break'] = (['C23'], [(ML, LOOP, '''  for (i = 0; i < n; i++) {
    idx = ((l1c_int)pix_idx_double[i]) - 1;
    if (idx < 0 || idx > mtot - 1) {
      break;
    }
    pix_idx[i] = idx;
  }
  if (i < n) {
    status = L1C_INVALID_ARGUMENT;
    goto exit;
  }
''')])
R['mx-copy'] = (['C23'], [(ML, '''  for (i = 0; i < mrow * mcol; i++) {
    x_out[i] = x_ours[i];
  }
''', '''  memcpy(x_out, x_ours, sizeof(double) * (size_t)mtot);
'''), (MB, '''  for (i = 0; i < N * M; i++) {
    f_out[i] = uk[i];
  }
''', '''  cblas_dcopy(N * M, uk, 1, f_out, 1);
'''), (MB, 'i = 0, N = 0', 'N = 0')])
R['mx-if-chain'] = (['C23'], [(ML, '''  switch (status) {
  case L1C_OUT_OF_MEMORY:
    mexErrMsgIdAndTxt("l1c:l1qc_dct:outofmemory", "Error Allocating memory.");
    break;
  case L1C_INVALID_ARGUMENT:
    mexErrMsgIdAndTxt("l1c:l1qc_dct:bad_index", "pix_idx contained invalid value(s).");
    break;

  default:
    break;
  }
''', '''  if (status == L1C_OUT_OF_MEMORY) {
    mexErrMsgIdAndTxt("l1c:l1qc_dct:outofmemory", "Error Allocating memory.");
  }
  if (status == L1C_INVALID_ARGUMENT) {
    mexErrMsgIdAndTxt("l1c:l1qc_dct:bad_index", "pix_idx contained invalid value(s).");
  }
''')])
R['mx-fields'] = (['C23'], [(ML, '''    mxArray *l1_mex_pr, *total_newton_iter_mex_pr;
    mxArray *total_cg_iter_mex_pr, *status_mex_pr;
''', ''), (ML, '''    l1_mex_pr = mxCreateDoubleMatrix(1, 1, mxREAL);
    total_newton_iter_mex_pr = mxCreateDoubleMatrix(1, 1, mxREAL);
    total_cg_iter_mex_pr = mxCreateDoubleMatrix(1, 1, mxREAL);
    status_mex_pr = mxCreateDoubleMatrix(1, 1, mxREAL);

    *mxGetPr(l1_mex_pr) = lb_res.l1;
    *mxGetPr(total_newton_iter_mex_pr) = (double)lb_res.total_newton_iter;
    *mxGetPr(total_cg_iter_mex_pr) = (double)lb_res.total_cg_iter;
    *mxGetPr(status_mex_pr) = (double)lb_res.status;

    mxSetField(plhs[1], 0, "l1", l1_mex_pr);
    mxSetField(plhs[1], 0, "total_newton_iter", total_newton_iter_mex_pr);
    mxSetField(plhs[1], 0, "total_cg_iter", total_cg_iter_mex_pr);
    mxSetField(plhs[1], 0, "status", status_mex_pr);
''', '''    const double fvals[] = {lb_res.l1,
                            (double)lb_res.total_newton_iter,
                            (double)lb_res.total_cg_iter,
                            (double)lb_res.status};
    for (int k = 0; k < 4; k++) {
      mxSetField(plhs[1], 0, fnames[k], mxCreateDoubleScalar(fvals[k]));
    }
''')])
R['mx-field-helper'] = (['C23'], [(ML, 'void mexFunction(', '''static void set_double_field(mxArray* s, const char* name, double v) {
  mxArray* a = mxCreateDoubleMatrix(1, 1, mxREAL);
  mxGetPr(a)[0] = v;
  mxSetField(s, 0, name, a);
}

void mexFunction('''), (ML, '''    mxArray *l1_mex_pr, *total_newton_iter_mex_pr;
    mxArray *total_cg_iter_mex_pr, *status_mex_pr;
''', ''), (ML, '''    l1_mex_pr = mxCreateDoubleMatrix(1, 1, mxREAL);
    total_newton_iter_mex_pr = mxCreateDoubleMatrix(1, 1, mxREAL);
    total_cg_iter_mex_pr = mxCreateDoubleMatrix(1, 1, mxREAL);
    status_mex_pr = mxCreateDoubleMatrix(1, 1, mxREAL);

    *mxGetPr(l1_mex_pr) = lb_res.l1;
    *mxGetPr(total_newton_iter_mex_pr) = (double)lb_res.total_newton_iter;
    *mxGetPr(total_cg_iter_mex_pr) = (double)lb_res.total_cg_iter;
    *mxGetPr(status_mex_pr) = (double)lb_res.status;

    mxSetField(plhs[1], 0, "l1", l1_mex_pr);
    mxSetField(plhs[1], 0, "total_newton_iter", total_newton_iter_mex_pr);
    mxSetField(plhs[1], 0, "total_cg_iter", total_cg_iter_mex_pr);
    mxSetField(plhs[1], 0, "status", status_mex_pr);
''', '''    set_double_field(plhs[1], "l1", lb_res.l1);
    set_double_field(plhs[1], "total_newton_iter", lb_res.total_newton_iter);
    set_double_field(plhs[1], "total_cg_iter", lb_res.total_cg_iter);
    set_double_field(plhs[1], "status", lb_res.status);
''')])
R['mx-utils-getn'] = (['C23'], [(MU, '''  size_t n = mxGetN(mxa[idx]);
  size_t m = mxGetM(mxa[idx]);
  size_t nm = 0;

  if (!mxIsDouble(mxa[idx])) {
    mexErrMsgIdAndTxt("l1c:notDouble", "Input %d must be a double.", idx);
  }
  _mex_assert_full_real(mxa, idx);
  _mex_assert_1darray(mxa, idx);

  nm = n * m;
''', '''  const mxArray* a = mxa[idx];
  size_t nm;

  if (!mxIsDouble(a)) {
    mexErrMsgIdAndTxt("l1c:notDouble", "Input %d must be a double.", idx);
  }
  _mex_assert_full_real(mxa, idx);
  _mex_assert_1darray(mxa, idx);

  nm = mxGetNumberOfElements(a);
''')])
R['mx-utils-demorgan'] = (['C23'], [(MU, '''  if (!mxIsDouble(mxa[idx]) || !mxIsScalar(mxa[idx])) {
    mexErrMsgIdAndTxt(
        "l1c:notDoubleScalar"''', '''  if (!(mxIsDouble(mxa[idx]) && mxGetM(mxa[idx]) == 1 && mxGetN(mxa[idx]) == 1)) {
    mexErrMsgIdAndTxt(
        "l1c:notDoubleScalar"'''), (MU, '''  if (d > 2 || ((n != 1) && (m != 1))) {''', '''  if (d > 2 || !((n == 1) || (m == 1))) {''')])
R['mx-nesta-mode-fn'] = (['C23'], [(MN, 'void mexFunction(', '''static int parse_mode(const mxArray* a, BpMode* out) {
  char mode[10];
  if (mxGetString(a, mode, sizeof(mode))) {
    return 1;
  }
  if (!strcmp(mode, "synthesis")) {
    *out = synthesis;
    return 0;
  }
  if (!strcmp(mode, "analysis")) {
    *out = analysis;
    return 0;
  }
  return 1;
}

void mexFunction('''), (MN, '''  // [synthesis | analysis]
  char mode[10];
  if (mxGetString(mxA_mode, mode, 10)) {
    mexErrMsgIdAndTxt(
        "l1c:badField",
        "Field 'mode' of opts must be a string, either analysis or synthesis");
  }

  if (strncmp(mode, "synthesis", 10) == 0) {
    bp_mode = synthesis;
  } else if (strncmp(mode, "analysis", 10) == 0) {
    bp_mode = analysis;
  } else {
''', '''  // [synthesis | analysis]
  if (parse_mode(mxA_mode, &bp_mode)) {
''')])
R['mx-nesta-cleanup'] = (['C23'], [(MN, '''  if (NULL == z_ours || NULL == b_ours || NULL == x0) {
    status = L1C_OUT_OF_MEMORY;
    goto exit2;
  }

  cblas_dcopy(n, b, 1, b_ours, 1);
''', '''  if (!(z_ours && b_ours && x0)) {
    ax_funs.destroy();
    status = L1C_OUT_OF_MEMORY;
    goto exit1;
  }

  memcpy(b_ours, b, (size_t)n * sizeof(double));
'''), (MN, '''  cblas_dcopy(mtot, z_ours, 1, z_out, 1);

exit2:
  ax_funs.destroy();
''', '''  for (int i = mtot - 1; i >= 0; i--) {
    z_out[i] = z_ours[i];
  }
  ax_funs.destroy();
''')])
R['mx-breg-order'] = (['C23'], [(MB, '''  M = (l1c_int)mxGetN(prhs[0]);
  N = (l1c_int)mxGetM(prhs[0]);
  f = mxGetPr(prhs[0]);

  /* -------- Check mu, tol, max_iter -------------*/
  mu = _mex_get_double_scalar_or_fail(prhs, 1);
  tol = _mex_get_double_scalar_or_fail(prhs, 2);
  max_iter = (int)_mex_get_double_scalar_or_fail(prhs, 3);
''', '''  max_iter = (int)_mex_get_double_scalar_or_fail(prhs, 3);
  tol = _mex_get_double_scalar_or_fail(prhs, 2);
  mu = _mex_get_double_scalar_or_fail(prhs, 1);
  f = mxGetPr(prhs[0]);
  N = (l1c_int)mxGetM(prhs[0]);
  M = (l1c_int)mxGetN(prhs[0]);
'''), (MB, '''  f_ours = l1c_malloc_double(N * M);
  uk = l1c_malloc_double(N * M);
  if (!f_ours || !uk) {
    status = L1C_OUT_OF_MEMORY;
    goto exit;
  }
''', '''  const l1c_int NM = N * M;
  f_ours = l1c_malloc_double(NM);
  if (!f_ours) {
    status = L1C_OUT_OF_MEMORY;
    goto exit;
  }
  uk = l1c_malloc_double(NM);
  if (!uk) {
    status = L1C_OUT_OF_MEMORY;
    goto exit;
  }
''')])
R['mx-nogoto'] = (['C23'], [(MB, '''  if (!f_ours || !uk) {
    status = L1C_OUT_OF_MEMORY;
    goto exit;
  }
  cblas_dcopy(N * M, f, 1, f_ours, 1);
  status = l1c_breg_anistropic_TV(M, N, uk, f_ours, mu, tol, max_iter, max_jac_iter);
  if (status) {
    goto exit;
  }
  /* Prepare output data. */
  plhs[0] = mxCreateDoubleMatrix((mwSize)N, (mwSize)M, mxREAL);

  f_out = mxGetPr(plhs[0]);

  for (i = 0; i < N * M; i++) {
    f_out[i] = uk[i];
  }

exit:
''', '''  if (f_ours && uk) {
    cblas_dcopy(N * M, f, 1, f_ours, 1);
    status = l1c_breg_anistropic_TV(M, N, uk, f_ours, mu, tol, max_iter, max_jac_iter);
    if (!status) {
      /* Prepare output data. */
      plhs[0] = mxCreateDoubleMatrix((mwSize)N, (mwSize)M, mxREAL);
      f_out = mxGetPr(plhs[0]);
      double *src = uk, *end = uk + N * M;
      while (src != end) {
        *f_out++ = *src++;
      }
    }
  } else {
    status = L1C_OUT_OF_MEMORY;
  }
'''), (MB, 'i = 0, N = 0', 'N = 0')])
# ---------------------------------------------------------------- Python
R['py-split-check'] = (['C22'], [(PYF, '''  if (b_npA == NULL || pix_idx_npA == NULL) {
    PyErr_SetString(PyExc_RuntimeError, "Failed to initialize arrays");
    goto fail;
  }
''', '''  if (!b_npA) {
    PyErr_SetString(PyExc_RuntimeError, "Failed to initialize arrays");
    goto fail;
  }
  if (!pix_idx_npA) {
    PyErr_SetString(PyExc_RuntimeError, "Failed to initialize arrays");
    goto fail;
  }
''')])
R['py-early-convert'] = (['C22'], [(PYF, '''  b_npA = (PyArrayObject*)PyArray_FROM_OTF(b_obj, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
  pix_idx_npA =
      (PyArrayObject*)PyArray_FROM_OTF(pix_idx_obj, NPY_INT, NPY_ARRAY_IN_ARRAY);

  /* If that didn't work, throw an exception. */
  if (b_npA == NULL || pix_idx_npA == NULL) {
    PyErr_SetString(PyExc_RuntimeError, "Failed to initialize arrays");
    goto fail;
  }
''', '''  b_npA = (PyArrayObject*)PyArray_FROM_OTF(b_obj, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
  if (b_npA == NULL) {
    PyErr_SetString(PyExc_RuntimeError, "Failed to initialize arrays");
    goto fail;
  }
  pix_idx_npA =
      (PyArrayObject*)PyArray_FROM_OTF(pix_idx_obj, NPY_INT, NPY_ARRAY_IN_ARRAY);
  if (pix_idx_npA == NULL) {
    PyErr_SetString(PyExc_RuntimeError, "Failed to initialize arrays");
    goto fail;
  }
''')])
R['py-one-exit'] = (['C22'], [(PYF, '''  /* Build the output tuple */
  npy_intp dims[] = {n, m};
  uk_out_npA = PyArray_SimpleDoubleCopy(2, dims, uk);
  if (!uk_out_npA)
    goto fail2;

  /* Clean up. */
  Py_DECREF(f_npA);
  l1c_free_double(f_ours);
  l1c_free_double(uk);

  return uk_out_npA;

  /* If we failed, clean up more things. Note the fall through. */
fail2:
  l1c_free_double(f_ours);
  l1c_free_double(uk);
fail1:
  Py_XDECREF(f_npA);

  return NULL;
''', '''  /* Build the output tuple */
  npy_intp dims[] = {n, m};
  uk_out_npA = PyArray_SimpleDoubleCopy(2, dims, uk);

fail2:
  l1c_free_double(uk);
  l1c_free_double(f_ours);
fail1:
  Py_XDECREF(f_npA);

  return uk_out_npA;
''')])
R['py-memcpy'] = (['C22'], [(PYF, '''  cblas_dcopy(n * m, f, 1, f_ours, 1);
''', '''  memcpy(f_ours, f, sizeof(double) * (size_t)(n * m));
'''), (PYF, '''  cblas_dcopy(n, b, 1, b_ours, 1);
''', '''  for (int i = 0; i < n; i++)
    b_ours[i] = b[i];
'''), (PYF, '#include', '#include <string.h>\n#include')])
R['py-simplecopy'] = (['C22'], [(PYF, '''  for (int i = 0; i < nd; i++) {
    N *= dims[i];
  }

  cblas_dcopy(N, data, 1, their_data, 1);''', '''  for (int i = nd - 1; i >= 0; i--) {
    N = N * dims[i];
  }

  for (int i = 0; i < N; i++) {
    their_data[i] = data[i];
  }''')])
R['py-size-helper'] = (['C22'], [(PYF, 'static PyObject* _l1qc_dct(PyObject* self, PyObject* args, PyObject* kw) {\n', '''static int sizes_ok(int mrow, int mcol, PyArrayObject* b, PyArrayObject* p) {
  if ((PyArray_NDIM(b) != 1) || (PyArray_NDIM(p) != 1)) {
    PyErr_SetString(PyExc_IndexError, "b and pix_idx must have exactly 1 dimensions.");
    return 0;
  }
  if (mrow <= 0 || mcol <= 0 || (int64_t)mrow * mcol > INT_MAX) {
    PyErr_SetString(PyExc_ValueError,
                    "mrow and mcol must be positive and mrow * mcol must fit an int.");
    return 0;
  }
  if (mrow * mcol < PyArray_DIM(b, 0) || PyArray_DIM(b, 0) != PyArray_DIM(p, 0)) {
    PyErr_SetString(PyExc_ValueError,
                    "Must have len(x) > len(b) and len(b) == len(pix_idx).");
    return 0;
  }
  return 1;
}

static PyObject* _l1qc_dct(PyObject* self, PyObject* args, PyObject* kw) {
'''), (PYF, '''  if ((PyArray_NDIM(b_npA) != 1) || (PyArray_NDIM(pix_idx_npA) != 1)) {
    PyErr_SetString(PyExc_IndexError, "b and pix_idx must have exactly 1 dimensions.");
    goto fail;
  }

  /*--------------- Check Sizes ----------------- */
  if (mrow <= 0 || mcol <= 0 || (int64_t)mrow * mcol > INT_MAX) {
    PyErr_SetString(PyExc_ValueError,
                    "mrow and mcol must be positive and mrow * mcol must fit an int.");
    goto fail;
  }
  mtot = mrow * mcol;
  n = PyArray_DIM(b_npA, 0);
  n_ = PyArray_DIM(pix_idx_npA, 0);

  if (mtot < n || n != n_) {
    PyErr_SetString(PyExc_ValueError,
                    "Must have len(x) > len(b) and len(b) == len(pix_idx).");
    goto fail;
  }
''', '''  if (!sizes_ok(mrow, mcol, b_npA, pix_idx_npA)) {
    goto fail;
  }
  mtot = mrow * mcol;
  n = PyArray_DIM(b_npA, 0);
'''), (PYF, ', n = 0, n_ = 0;', ', n = 0;')])
R['py-free-order'] = (['C22'], [(PYF, '''  /* Clean up. */
  Py_DECREF(b_npA);
  Py_DECREF(pix_idx_npA);
  l1c_free_double(b_ours);
  l1c_free_double(x_ours);

  return Py_BuildValue("Ni", x_out_npA, status);
''', '''  /* Clean up. */
  l1c_free_double(x_ours);
  l1c_free_double(b_ours);
  Py_XDECREF(pix_idx_npA);
  Py_XDECREF(b_npA);

  PyObject* result = Py_BuildValue("Ni", x_out_npA, status);
  return result;
'''), (PYF, '''  if (l1c_setup_dctTV_transforms(
          n, mrow, mcol, alpha_v, alpha_h, dct_mode, bp_mode, pix_idx, &ax_funs)) {
''', '''  status = l1c_setup_dctTV_transforms(
      n, mrow, mcol, alpha_v, alpha_h, dct_mode, bp_mode, pix_idx, &ax_funs);
  if (status != L1C_SUCCESS) {
''')])
R['py-res-tuple'] = (['C22'], [(PYF, '''                             "status",
                             lb_res.status | status);
''', '''                             "status",
                             lb_res.status);
'''), (PYF, '''  return Py_BuildValue("NN", x_out_npA, lb_res_obj);

  /*''', '''  PyObject* pair = Py_BuildValue("OO", x_out_npA, lb_res_obj);
  Py_DECREF(x_out_npA);
  Py_DECREF(lb_res_obj);
  return pair;

  /*''')])
R['py-early-release'] = (['C22'], [(PYF, '''  status = l1qc_dct(mrow, mcol, x_ours, n, b, pix_idx, opts, &lb_res);
  if (status != L1C_SUCCESS) {
    PyErr_SetString(PyExc_RuntimeError, "l1qc_dct failed.");
    goto fail;
  }
''', '''  status = l1qc_dct(mrow, mcol, x_ours, n, b, pix_idx, opts, &lb_res);
  Py_CLEAR(b_npA);
  Py_CLEAR(pix_idx_npA);
  if (status != L1C_SUCCESS) {
    PyErr_SetString(PyExc_RuntimeError, "l1qc_dct failed.");
    goto fail;
  }
'''), (PYF, '''  /* Clean up. */
  Py_DECREF(b_npA);
  Py_DECREF(pix_idx_npA);
  l1c_free_double(x_ours);

  return Py''', '''  l1c_free_double(x_ours);

  return Py''')])
