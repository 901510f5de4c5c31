"""the Python module: arguments as the solver receives them, result, exceptions, reference counts, buffers, transform sets"""
from base import *
from o_xfm import rpix
from o_l1qc import OPT, RES
from o_nesta import OPT as NOPT
from o_fault import quiet, bal
import gc, importlib.machinery, importlib.util, os, subprocess, sys, sysconfig, tracemalloc

_mod = {}


def module(lib):
    if lib.path in _mod:
        return _mod[lib.path]
    d = os.path.dirname(lib.path)
    so = os.path.join(d, '_l1cPy_module.so')
    p = subprocess.run(['sh', '-c', 'cd "$1" && F="-std=gnu11 -march=x86-64-v3 -O1 -g -fPIC -w -I$1/inc -I$2/include -I$2/src -I$3 -I$4 -I$5" && gcc $F -include $5/vc_py.h -c $2/interfaces/python/l1cPy.c -o py1.o && gcc $F -c $5/vc_py.c -o py2.o && gcc -shared -o $6 py1.o py2.o $7 -lopenblas -Wl,-rpath,$1',
                             'sh', d, cfront.REPO, sysconfig.get_paths()['include'], np.get_include(), HERE, so, lib.path], capture_output=True, text=True)
    if p.returncode:
        raise BuildError(p.stderr[:1500])
    ld = importlib.machinery.ExtensionFileLoader('_l1cPy_module', so)
    m = importlib.util.module_from_spec(importlib.util.spec_from_loader('_l1cPy_module', ld))
    ld.exec_module(m)
    _mod[lib.path] = (m, C.CDLL(so))
    return _mod[lib.path]


L1 = dict(epsilon=.01, mu=10.0, lbtol=1e-3, newton_tol=1e-3, newton_max_iter=50, verbose=0, l1_tol=1e-5, cgtol=1e-8, cgmaxiter=200, dct_mode=1)
FLD = dict(cgtol='cg_tol', cgmaxiter='cg_maxiter')
NE = dict(alpha_v=0.0, alpha_h=0.0, sigma=.01, mu=1e-5, tol=1e-5, n_continue=5, verbose=5, dct_mode=1, bp_mode=1)
BR = dict(mu=10.0, tol=.001, max_iter=1000, max_jac_iter=1)


def dress(rng, v, typ):
    """the same numbers as some array-like"""
    k = int(rng.integers(0, 5))
    v = np.asarray(v, dtype=typ)
    if k == 0:
        return v.tolist(), 'list'
    if k == 1:
        return np.repeat(v, 2, axis=0)[::2], 'strided array'
    if k == 2 and v.ndim == 2:
        return np.asfortranarray(v), 'Fortran-ordered array'
    if k == 2 and typ == np.int32:
        return v.astype(np.int16), 'int16 array'
    if k == 2:
        return v.astype(np.float32).astype(np.float64), 'array'
    return v.copy(), 'array'


def pick(rng, dflt, real):
    kw = {}
    for k, d in dflt.items():
        if rng.random() < .45:
            if k in ('dct_mode', 'bp_mode'):
                kw[k] = int(rng.integers(1, 3))
            elif k.startswith('alpha'):
                kw[k] = float(rng.choice([0.0, .5, 1.25]))
            elif isinstance(d, int):
                kw[k] = int(rng.integers(1, 4)) if k != 'verbose' else int(rng.integers(0, 3))
            else:
                kw[k] = float(d * rng.uniform(1.1, 3))
    return kw


@oracle('C22')
def binding(lib, rng):
    m, so = module(lib)
    which = int(rng.integers(0, 3))
    dflt = (L1, BR, NE)[which]
    ci = lambda k: C.c_int.in_dll(so, k)
    dbl = lambda q, k: np.ctypeslib.as_array((D_ * 4096).in_dll(so, q))[:k]
    r, c = int(rng.integers(3, 8)), int(rng.integers(3, 8))
    N = r * c
    kw = pick(rng, dflt, False)
    bad = None
    pix = rpix(rng, N) if rng.random() < .85 else rng.permutation(N).astype(np.int32)
    n = len(pix)
    img = np.round(rng.normal(size=N) * 8) / 8 + 1
    if which == 1:
        data = img.reshape(r, c)
    else:
        data = img[pix]
    k = rng.random()
    pixa = np.array(pix)
    if k < .05:
        data, bad = data.reshape((1,) + data.shape), 'wrong number of dimensions'
    elif k < .09 and which == 1:
        data, bad = data[:2] if rng.random() < .5 else data[:, :2], 'a side of 2'
    elif k < .13 and which != 1:
        pixa, bad = pixa[:-1], 'lengths differ'
    elif k < .17 and which != 1:
        kw['dct_mode'], bad = int(rng.choice([0, 3, -1])), 'invalid mode'
    elif k < .2 and which == 2:
        kw['bp_mode'], bad = int(rng.choice([0, 3, -1])), 'invalid mode'
    elif k < .23:
        kw['no_such_option'], bad = 1, 'unknown keyword'
    elif k < .26 and which == 2:
        kw['alpha_v'], bad = -1.0, 'negative weight'
    elif k < .29 and which == 2:
        pixa[0], bad = N, 'sample index out of range'
    elif k < .32 and which != 1:
        pixa, bad = pixa.reshape(1, -1), 'wrong number of dimensions'
    b, bk = dress(rng, data, np.float64)
    pa, pk = dress(rng, pixa, np.int32)
    if .32 <= k < .36:
        b, bad = ['x'] * 3, 'not numbers'
    elif .36 <= k < .38 and which != 1:
        pa, bad = object(), 'not an array'
    elif .38 <= k < .42 and which != 1:
        b, pa, bad = np.ones(N + 2), np.zeros(N + 2, np.int32), 'more samples than pixels'
    elif .42 <= k < .48 and which != 1:
        pa, bad = np.asarray(pixa, dtype=np.float64) + .25, 'fractional sample indices'
    elif .48 <= k < .51:
        b, bad = np.asarray(data) + 1j, 'complex numbers'
    fault = 0
    mem = 0
    if bad is None and rng.random() < .35:
        fault = sum(1 << i for i in range(7) if rng.random() < .25)
    if bad is None and rng.random() < .25:
        mem = sum(1 << i for i in range(10) if rng.random() < .2)
    want = int(rng.choice([0, 0, 0, 2, 8, 512]))
    ci('vcp_mode').value = 1
    dbl('vcp_sol', 3 * N)[:] = rng.normal(size=3 * N)
    res = RES.in_dll(so, 'vcp_res')
    res.l1, res.total_newton_iter, res.total_cg_iter, res.status = 3.5, 7, 11, 0 if rng.random() < .6 else int(rng.choice([2, 512]))
    sb = [np.array(x, dtype=object, copy=True).tolist() if isinstance(x, (list, np.ndarray)) else None for x in (b, pa)]
    args = (b,) if which == 1 else (r, c, b, pa)
    nm = ('l1qc_dct', 'breg_anistropic_TV', 'nesta_dctTV')[which]
    f = getattr(m, nm)
    txt = '%s(%s%s) data as %s%s' % (nm, 'image %s' % (np.shape(b),) if which == 1 else '%d, %d, %d values, indices %s' % (r, c, n, list(map(int, pix))), ''.join(', %s=%r' % q for q in kw.items()), bk,
                                        (' [%s]' % bad if bad else '') + (' [API calls failing %x]' % fault if fault else '') + (' [allocations failing %x]' % mem if mem else '') + (' [solver returns %d]' % want if want else ''))

    def call():
        ci('vcp_calls').value = ci('vcp_napi').value = ci('vcp_real').value = 0
        ci('vcp_status').value = want
        C.c_ulonglong.in_dll(so, 'vcp_faults').value = fault
        lib.reset()
        lib.setmask(mem)
        try:
            return f(*args, **kw), None
        except Exception as ex:
            return None, type(ex).__name__
        finally:
            nonlocal_hit[0] = bool(mem & ((1 << min(lib.get(0), 60)) - 1)) or bool(fault & ((1 << min(ci('vcp_napi').value, 60)) - 1))
            lib.setmask()
            C.c_ulonglong.in_dll(so, 'vcp_faults').value = 0
    nonlocal_hit = [False]
    rc0 = (sys.getrefcount(b), sys.getrefcount(pa))
    out, exc = quiet(call)
    rc1 = (sys.getrefcount(b), sys.getrefcount(pa))
    need(rc0 == rc1, txt + ': reference counts of the arguments went from %s to %s' % (rc0, rc1))
    for x, y in zip((b, pa), sb):
        if y is not None:
            need(np.array(x, dtype=object).tolist() == y, txt + ': an argument was modified')
    bal(lib, txt)
    failing = bad or nonlocal_hit[0] or (which != 2 and want and ci('vcp_calls').value) or (which == 2 and ci('vcp_real').value)
    if failing:
        need(exc is not None and exc != 'SystemError', txt + (': returned a result' if exc is None else ': ' + exc))
    else:
        need(exc is None, txt + ': raised ' + str(exc))
        need(ci('vcp_calls').value == 1, txt + ': the solver ran %d times' % ci('vcp_calls').value)
        A = out if which == 1 else out[0]
        o = sys.getrefcount(A)
        need(o == (3 if which == 1 else 3), txt + ': the returned array has %d references too many' % (o - 3))
        need(isinstance(A, np.ndarray) and A.dtype == np.float64 and A.shape == (r, c), txt + ': result of shape %s' % (np.shape(A),))
        img = dbl('vcp_img' if which == 2 else 'vcp_sol', N)
        need(np.allclose(A.ravel(), img, rtol=0, atol=1e-12) if which == 2 else np.array_equal(A.ravel(), img), txt + ': the result is not the image the solver computed')
        need(np.array_equal(dbl('vcp_b', np.size(data)), np.ravel(data)), txt + ': the solver was given other data')
        val = dict(dflt, **kw)
        ints, ds = list((C.c_int * 16).in_dll(so, 'vcp_ints')), list((D_ * 16).in_dll(so, 'vcp_dbls'))
        got = {}
        if which == 1:
            got = dict(max_iter=ints[2], max_jac_iter=ints[3], mu=ds[0], tol=ds[1])
            need(tuple(ints[:2]) == (r, c), txt + ': the solver was given size %s' % (ints[:2],))
        else:
            need(list((C.c_int * 4096).in_dll(so, 'vcp_pix'))[:n] == list(map(int, pix)), txt + ': the solver was given other sample indices')
            need(ints[:3] == [r, c, n], txt + ': the solver was given sizes %s' % (ints[:3],))
            if which == 0:
                O = OPT.in_dll(so, 'vcp_opts')
                got = {k: getattr(O, FLD.get(k, k)) for k in L1}
                need((O.lbiter, O.warm_start_cg, O.cg_verbose) == (0, 0, 0), txt + ': options without a keyword changed')
                d = out[1]
                need(d == dict(l1=3.5, total_newton_iter=7, total_cg_iter=11, status=res.status), txt + ': result dictionary %r, solver reported status %d' % (d, res.status))
                need(sys.getrefcount(d) == 3, txt + ': the returned dictionary has %d references too many' % (sys.getrefcount(d) - 3))
            else:
                O = NOPT.in_dll(so, 'vcp_nopts')
                got = {k: getattr(O, k) for k in ('sigma', 'mu', 'tol', 'n_continue', 'verbose')}
                got.update(alpha_v=ds[0], alpha_h=ds[1], dct_mode=ints[3], bp_mode=ints[4])
                need(ints[5:7] == [ints[7], n], txt + ': the solver was given sizes %s' % (ints[5:7],))
                need(out[1] == want, txt + ': status %r, that of the solver %d' % (out[1], want))
        for q, v in got.items():
            need(v == val[q], txt + ': %s reached the solver as %r, expected %r' % (q, v, val[q]))
        if which != 1:
            need(sys.getrefcount(out) == 2, txt + ': the returned pair has too many references')
        del A
    del out
    # temporaries: repeated calls must not accumulate memory
    def reps(k):
        for _ in range(k):
            x = call()
            del x
    quiet(lambda: reps(3))
    grow = []
    tracemalloc.start()
    try:
        for k in (6, 20, 20, 200, 200, 400):            # a leak shows in every round, whatever its length; what the interpreter itself allocates does not
            gc.collect()
            a0 = tracemalloc.get_traced_memory()[0]
            quiet(lambda: reps(k))
            gc.collect()
            grow.append((tracemalloc.get_traced_memory()[0] - a0) // k)
            if grow[-1] < 40:
                break
    finally:
        tracemalloc.stop()
    need(min(grow) < 40, txt + ': every call leaves about %d bytes of Python memory behind' % min(grow))
