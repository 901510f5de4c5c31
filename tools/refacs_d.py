"""behaviour-preserving edits of the size checks (see refac.py)"""
R = {}
DT = 'src/dct_transforms.c'; TV = 'src/dct_tv_transforms.c'; PY = 'interfaces/python/l1cPy.c'; MX = 'interfaces/mex/l1qc_dct_mex.c'
C = 'if ((int64_t)mrow * mcol > INT_MAX) {'
R['sz-div'] = (['C11', 'C21'], [(DT, C, 'if (mrow > INT_MAX / mcol) {')])
R['sz-helper'] = (['C11', 'C17'], [(DT, 'int l1c_setup_dct_transforms(', 'static int too_many(l1c_int r, l1c_int c) {\n  int64_t total = (int64_t)r * (int64_t)c;\n  return total > INT_MAX ? 1 : 0;\n}\nint l1c_setup_dct_transforms('), (DT, C, 'if (too_many(mrow, mcol)) {')])
R['sz-merge'] = (['C11'], [(DT, 'if (n <= 0 || mrow <= 0 || mcol <= 0) {\n    return L1C_INVALID_ARGUMENT;\n  }', 'if (n <= 0 || mrow <= 0 || mcol <= 0 || (int64_t)mrow * mcol > INT_MAX) {\n    return L1C_INVALID_ARGUMENT;\n  }'),
   (DT, '  /* The transforms index the signal with an l1c_int. */\n  if ((int64_t)mrow * mcol > INT_MAX) {\n    return L1C_INVALID_ARGUMENT;\n  }\n', '')])
R['sz-tv-branches'] = (['C11', 'C12'], [(TV, 'n_blocks = 1 + (alp_v > 0) + (alp_h > 0);', 'n_blocks = 1;\n  if (alp_v > 0)\n    n_blocks++;\n  if (alp_h > 0)\n    n_blocks++;')])
R['sz-tv-mul'] = (['C11', 'C12'], [(TV, '(int64_t)mrow * mcol > INT_MAX / n_blocks', 'n_blocks * ((int64_t)mrow * mcol) > INT_MAX')])
R['sz-py-mtot'] = (['C22'], [(PY, '  mtot = mrow * mcol;\n', '  mtot = mcol * mrow;\n')])
R['sz-py-split'] = (['C22'], [(PY, 'if (mrow <= 0 || mcol <= 0 || (int64_t)mrow * mcol > INT_MAX) {', 'int bad_size = mrow <= 0 || mcol <= 0;\n  if (!bad_size)\n    bad_size = (long)mrow * (long)mcol > INT_MAX;\n  if (bad_size) {')])
R['sz-mx-div'] = (['C23'], [(MX, '(int64_t)mcol * mrow > INT_MAX', 'mcol > INT_MAX / mrow')])
