"""property -> contracts (and obligation categories) that decide it"""
import importlib

SPECS = ['s_math', 's_tv', 's_mem', 's_breg', 's_cg', 's_ls', 's_xfm', 's_nesta', 's_l1qc', 's_onecall', 's_json', 's_py', 's_mex']
FUNC = ('func', 'pre', 'mpre')

TVK = ['l1c_setup_dctTV_transforms.%s%s%s' % (a, v, h) for a in ('syn', 'ana') for v in ('', '.v') for h in ('', '.h')]
FFTW = ['FFTW: a plan executes the REDFT10/REDFT01 map of its kind and size on the arrays it is given; planning leaves the arrays unchanged or zero']
COUNTS = ['the iteration totals reported by l1c_l1qc_newton fit an int']
JSON = ['get_file_length', 'load_file_as_text', 'load_file_to_json', 'extract_json_int', 'extract_json_double', 'extract_json_double_array', 'extract_json_int_array']
PY = ['_l1qc_dct', '_breg_anistropic_TV', '_nesta_dctTV']
MEX = ['mex.l1qc_dct', 'mex.breg_anistropic_TV', 'mex.nesta_dctTV']
PROPS = {
    'C01': dict(keys=['__l1c_daxpby', 'l1c_init_vec', 'l1c_dxmuly_z', 'l1c_daxpby_z', 'l1c_daxpy_z', 'l1c_abs_vec', 'vcl_dxMy_pz'], cats=FUNC),
    'C02': dict(keys=['l1c_dnorm1', 'l1c_dsum', 'l1c_dlogsum', 'l1c_dnrm2_rel_err', 'l1c_dnrm2_err', 'l1c_max_vec', 'vcl_sum', 'vcl_logsum'], cats=FUNC),
    'C03': dict(keys=['l1c_Dx', 'l1c_DxT', 'l1c_DxTDx', 'l1c_Dy', 'l1c_DyT', 'l1c_DyTDy', 'lemma_Dx_adjoint', 'lemma_DxTDx', 'lemma_Dy_adjoint', 'lemma_DyTDy'], cats=FUNC),
    'C04': dict(keys=['breg_shrink1', 'breg_mxpy_z', 'breg_hess_eval', 'hess_inv_diag', 'breg_anis_jacobi', 'breg_anis_guass_seidel', 'breg_anis_rhs'], cats=FUNC),
    'C05': dict(keys=['l1c_breg_anistropic_TV'], cats=FUNC),
    'C06': dict(keys=['l1c_linesearch_xu', 'l1c_linesearch_xu.overwrite', 'l1c_linesearch', 'l1c_linesearch.overwrite'], cats=FUNC),
    'C07': dict(keys=['l1c_cgsolve', 'l1c_cgsolve_diag_precond', 'lemma_cg', 'lemma_pcg'], cats=FUNC),
    'C08': dict(keys=['l1c_setup_matrix_transforms'], cats=FUNC),
    'C09': dict(keys=['l1c_dct1_setup'], cats=FUNC, assume=FFTW),
    'C10': dict(keys=['l1c_dct2_setup'], cats=FUNC, assume=FFTW),
    'C11': dict(keys=['l1c_setup_dct_transforms', 'l1c_setup_matrix_transforms', 'l1c_setup_matrix_transforms.reject', 'l1c_dct1_setup', 'l1c_dct2_setup', 'l1c_setup_dctTV_transforms.valid'] + TVK, cats=FUNC, assume=FFTW),
    'C13': dict(keys=['l1c_nesta_feval', 'l1c_nesta_project', 'l1c_nesta_setup', 'lemma_project', 'lemma_schedule', 'lemma_huber'], cats=FUNC),
    'C14': dict(keys=['l1c_nesta', '_l1c_push_fmeans_fifo', '_l1c_mean_fmean_fifo', '_l1c_new_fmean_fifo', 'l1c_nesta_feval', 'l1c_nesta_project', 'l1c_nesta_setup', 'lemma_window', 'lemma_project'], cats=FUNC),
    'C15': dict(keys=['_l1c_l1qc_f_eval', '_l1c_l1qc_H11pfun', '_l1c_l1qc_hess_grad', '_l1c_l1qc_descent_dir', 'l1c_cgsolve', 'lemma_cg', 'lemma_newton', 'lemma_gradient'], cats=FUNC),
    'C16': dict(keys=['l1c_l1qc_newton', '_l1c_l1qc_find_max_step', '_l1c_l1qc_newton_init', '_l1c_l1qc_check_feasible_start', '_l1c_l1qc_f_eval', 'l1c_linesearch_xu.overwrite'], cats=FUNC),
    'C20': dict(keys=JSON, cats=FUNC + ('alloc', 'live', 'overflow', 'safety'), assume=['stdio (fopen, fseek, ftell, rewind, fread, fclose) and cJSON (Parse, GetObjectItem, type tests, list of children) behave as modelled in s_json.py; the file does not change while it is read']),
    'C21': dict(keys=['l1qc_dct'], cats=FUNC + ('alloc', 'live'), assume=FFTW),
    'C22': dict(keys=PY, cats=FUNC + ('alloc', 'live', 'safety', 'uninit', 'align'), assume=FFTW + ['the CPython and NumPy C API behave as modelled in s_py.py (argument parsing, reference counts, array conversion)', 'array lengths fit an int; l1qc: images of 2^30 to 2^31-1 pixels are excluded']),
    'C23': dict(keys=MEX, cats=FUNC + ('alloc', 'live', 'safety', 'uninit', 'align'), assume=FFTW + ['the mex API behaves as modelled in s_mex.py (types, sizes, data pointers, struct fields, an error does not return; mxCreate* does not fail)', 'l1qc: images of 2^30 to 2^31-1 pixels are excluded, sizes and counts given as doubles convert to int by truncation']),
    'C12': dict(keys=TVK, cats=FUNC, assume=FFTW),
}

MEMCATS = ('safety', 'live', 'align', 'uninit', 'overflow', 'mpre')
ALLOCATING = ['l1c_malloc_double', 'l1c_calloc_double', 'l1c_malloc_double_2D', 'l1c_calloc_double_2D', 'l1c_free_double', 'l1c_free_double_2D', 'l1c_breg_anistropic_TV',
              'l1c_setup_matrix_transforms', 'l1c_dct1_setup', 'l1c_dct2_setup', 'l1c_setup_dct_transforms', 'l1c_setup_dctTV_transforms.valid', '_l1c_new_fmean_fifo', 'l1c_nesta', 'l1c_l1qc_newton', 'l1qc_dct'] + JSON[1:3] + JSON[5:]


def every():
    import contract
    return [k for k, c in contract.CONTRACTS.items() if c.file and not c.file.startswith('../')]      # the Python and mex bindings have their own properties


def load_specs():
    for s in SPECS:
        importlib.import_module(s)
    PROPS['C17'] = dict(keys=[(k, tuple(c for c in MEMCATS if c != 'overflow')) if k == 'l1c_l1qc_newton' else k for k in every()], cats=MEMCATS, assume=FFTW + COUNTS, empty_ok=True)
    PROPS['C18'] = dict(keys=ALLOCATING + TVK, cats=('alloc', 'live', 'uninit'), assume=FFTW, empty_ok=True)
    PROPS['C19'] = dict(keys=every(), cats=('race',), empty_ok=True)

ASSUME = ['double arithmetic treated as exact real arithmetic (no rounding, overflow or signed zero); NaN tracked only where the code tests for it or divides',
          'int arithmetic mathematical with no-overflow obligations where category overflow is on (C17)',
          'single-threaded semantics for functional obligations; race freedom is C19']
NOTE = ('Every obligation generated from the current source is discharged for all inputs and all iterations (no bound), in exact real arithmetic; '
        'trusted: the VC generator, z3, clang AST, contracts of external libraries. Where an edit leaves the verifier\'s reach, a labelled bounded concrete search stands in.')
NOT_CLAIMED = {}
