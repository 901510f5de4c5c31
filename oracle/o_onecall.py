"""l1qc_dct with the solver call recorded (and sometimes replaced): start, options, result, status, fault behaviour"""
from base import *
from o_xfm import rpix
from o_l1qc import OPT, RES
from o_fault import quiet, masks, hit, bal
import scipy.fft as sf


def opts(rng):
    return OPT(epsilon=float(rng.choice([.05, .5, 3.0])), mu=10.0, lbtol=.1, tau=float(rng.uniform(0, 5)), lbiter=int(rng.choice([0, 1, 2])), newton_tol=.1,
               newton_max_iter=int(rng.choice([0, 1, 3])), verbose=int(rng.choice([0, 0, 1, 2])), l1_tol=0.0, cg_tol=1e-3, cg_maxiter=int(rng.choice([1, 20])), cg_verbose=0,
               warm_start_cg=int(rng.choice([0, 1, 2])), dct_mode=int(rng.integers(1, 3)))


@oracle('C21', 'C18')
def onecall(lib, rng):
    so = lib.so
    r, c = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    if r * c < 2:
        c += 1
    N = r * c
    pix = rpix(rng, N)
    n = len(pix)
    bad = None
    if rng.random() < .1:
        pix = np.array(pix)
        pix[rng.integers(0, n)] = int(rng.choice([-1, N, N + 3]))
        bad = 'sample index out of range'
    img = rng.normal(size=N) + 1
    b = Arr(np.concatenate([[7.0], img[np.clip(pix, 0, N - 1)]])).save()       # measurements need not be aligned
    bp = C.c_void_p(b.v.ctypes.data + 8)
    P = Arr(pix, np.int32).save()
    o = opts(rng)
    nr, nc, nn = r, c, n
    if bad is None and rng.random() < .08:
        nr, nc, nn = [(-1, c, n), (r, 0, n), (r, c, 0), (r, c, -2)][rng.integers(0, 4)]
        bad = 'dimensions %d x %d, %d samples' % (nr, nc, nn)
    x = Arr(rng.normal(size=N)).save()
    lb = RES()
    mode = C.c_int.in_dll(so, 'vcn_mode')
    calls = C.c_int.in_dll(so, 'vcn_calls')
    res = RES.in_dll(so, 'vcn_res')
    dbl = lambda q, k: np.ctypeslib.as_array((D_ * 4096).in_dll(so, q))[:k]
    calls.value = 0
    mode.value = int(rng.integers(0, 2))
    want = 0
    if mode.value:
        want = int(rng.choice([0, 0, 2, 8, 512]))
        res.status = want
        res.l1, res.total_newton_iter, res.total_cg_iter = 3.5, 7, int(rng.choice([0, 11]))
        dbl('vcn_sol', N)[:] = rng.normal(size=N)
    mm, pm = masks(rng, 9, 3) if rng.random() < .4 else (0, 0)
    fn = lib.f('l1qc_dct', I_, I_, I_, P_, I_, P_, P_, OPT, P_)
    lib.reset()
    lib.setmask(mm, pm)
    st = quiet(lambda: fn(nr, nc, x.p, nn, bp, P.p, o, C.byref(lb)))
    fm, fp = hit(mm, lib.get(0)), hit(pm, lib.get(6))
    lib.setmask()
    txt = 'l1qc_dct rows=%d cols=%d n=%d mode=%d pix=%s%s (allocations failing %x, plans failing %x%s)' % (nr, nc, nn, o.dct_mode, list(map(int, pix)), '' if bad is None else ' [%s]' % bad, mm, pm, ', solver replaced by one returning status %d' % want if mode.value else '')
    need(b.same() and b.ok() and P.same() and P.ok() and x.ok(), txt + ': inputs changed or output overrun')
    bal(lib, txt)
    if bad or fm or fp:
        allowed = {32} if bad or (fp and not fm) else {8, 32}
        need(st in allowed, txt + ': status %d, expected %s' % (st, sorted(allowed)))
        if calls.value == 0:
            need(x.same(), txt + ': output written')
        elif st != 0:
            need(x.same(), txt + ': output written although status %d' % st)
        return
    need(calls.value == 1, txt + ': solver run %d times' % calls.value)
    need((C.c_int.in_dll(so, 'vcn_m').value, C.c_int.in_dll(so, 'vcn_n').value) == (N, n), txt + ': solver given wrong dimensions')
    oo = OPT.in_dll(so, 'vcn_opts')
    for f, *_ in OPT._fields_:
        need(getattr(oo, f) == getattr(o, f), txt + ': option %s reached the solver as %r, given %r' % (f, getattr(oo, f), getattr(o, f)))
    need(np.array_equal(dbl('vcn_b', n), b.saved[1:]), txt + ': solver given other measurements')
    one = r == 1 or c == 1 or o.dct_mode == 1
    fwd = (lambda v: sf.dct(v, norm='ortho')) if one else (lambda v: sf.dctn(v.reshape(r, c), norm='ortho').ravel())
    inv = (lambda v: sf.idct(v, norm='ortho')) if one else (lambda v: sf.idctn(v.reshape(r, c), norm='ortho').ravel())
    e = np.zeros(N)
    e[pix] = b.saved[1:]
    need(close(dbl('vcn_x0', N), fwd(e), 1e-8, 1e-8), txt + ": solver does not start from A'b: %s, expected %s" % (dbl('vcn_x0', N).tolist()[:8], fwd(e).tolist()[:8]))
    for f, *_ in RES._fields_:
        u, v = getattr(lb, f), getattr(res, f)
        need(u == v or (u != u and v != v), txt + ': reported %s is %r, that of the solver %r' % (f, u, v))
    need(st == res.status, txt + ': status %d, that of the solver %d' % (st, res.status))
    if st:
        need(x.same(), txt + ': output written although the solver failed')
    else:
        need(close(x.v, inv(dbl('vcn_x1', N).copy()), 1e-8, 1e-8), txt + ': output %s is not M*eta %s' % (x.v.tolist()[:8], inv(dbl('vcn_x1', N).copy()).tolist()[:8]))
