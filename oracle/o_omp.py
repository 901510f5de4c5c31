"""schedules: the multithreaded library against itself on one thread, large and ragged sizes, several thread counts"""
from base import *
import o_l1qc
from o_breg import bf

gomp = C.CDLL('libgomp.so.1')


def both(lib, rng, txt, call, outs, exact=True):
    """call() writes outs (list of Arr) and returns a float or None; inputs restored between runs"""
    start = [o.v.copy() for o in outs]
    gomp.omp_set_dynamic(0)
    gomp.omp_set_num_threads(1)
    r0 = call()
    ref = [o.v.copy() for o in outs]
    for nt in (2, 3, 8, 8, 16, 5):
        for o, s in zip(outs, start):
            o.v[:] = s
        gomp.omp_set_num_threads(nt)
        r1 = call()
        for i, (o, w) in enumerate(zip(outs, ref)):
            if not (np.array_equal(o.v, w, equal_nan=True) if exact else close(o.v, w, 1e-10, 1e-10)):
                j = int(np.argmax(~((o.v == w) | (np.isnan(o.v) & np.isnan(w)))))
                gomp.omp_set_num_threads(1)
                need(False, '%s with %d threads: output %d differs from the sequential result at %d: %r, sequential %r' % (txt, nt, i, j, o.v[j], w[j]))
        if r0 is not None:
            need(close(r0, r1, 1e-9, 1e-9), '%s with %d threads: returns %r, sequential %r' % (txt, nt, r1, r0))
    gomp.omp_set_num_threads(1)


def size(rng):
    return int(rng.choice([rng.integers(0, 40), rng.integers(100, 5000), rng.integers(20000, 90000)], p=[.2, .4, .4]))


@oracle('C19')
def kernels(lib, rng):
    N = size(rng)
    x, y, z = (Arr(rng.normal(size=N)) for _ in range(3))
    al, be = float(rng.normal()), float(rng.normal())
    k = int(rng.integers(0, 12))
    L = lambda n, r, *a: lib.f(n, r, *a)
    if k == 0:
        both(lib, rng, 'l1c_daxpby N=%d' % N, lambda: L('__l1c_daxpby' if hasattr(lib.so, '__l1c_daxpby') else 'l1c_daxpby', None, I_, D_, P_, D_, P_)(N, al, x.p, be, y.p), [y])
    elif k == 1:
        both(lib, rng, 'l1c_init_vec N=%d' % N, lambda: L('l1c_init_vec', None, I_, P_, D_)(N, x.p, al), [x])
    elif k == 2:
        both(lib, rng, 'l1c_dxmuly_z N=%d' % N, lambda: L('l1c_dxmuly_z', None, I_, P_, P_, P_)(N, x.p, y.p, z.p), [z])
    elif k == 3:
        both(lib, rng, 'l1c_daxpby_z N=%d' % N, lambda: L('l1c_daxpby_z', None, I_, D_, P_, D_, P_, P_)(N, al, x.p, be, y.p, z.p), [z])
    elif k == 4:
        both(lib, rng, 'l1c_daxpy_z N=%d' % N, lambda: L('l1c_daxpy_z', None, I_, D_, P_, P_, P_)(N, al, x.p, y.p, z.p), [z])
    elif k == 5:
        both(lib, rng, 'l1c_abs_vec N=%d' % N, lambda: L('l1c_abs_vec', None, I_, P_, P_)(N, x.p, y.p), [y])
    elif k == 6:
        both(lib, rng, 'breg_shrink1 N=%d' % N, lambda: bf(lib, 'breg_shrink1')(N, x.p, y.p, abs(al)), [y])
    elif k == 7:
        both(lib, rng, 'breg_mxpy_z N=%d' % N, lambda: bf(lib, 'breg_mxpy_z')(N, x.p, y.p, z.p), [z])
    elif k == 8:
        x.v[:] = np.abs(x.v) + .1
        both(lib, rng, 'l1c_dlogsum N=%d' % N, lambda: L('l1c_dlogsum', D_, I_, D_, P_)(N, abs(al) + .1, x.p), [])
    elif k == 9:
        for f in ('l1c_dsum', 'l1c_dnorm1', 'vcl_sum'):
            both(lib, rng, '%s N=%d' % (f, N), lambda: L(f, D_, I_, P_)(N, x.p), [])
    elif k == 10:
        both(lib, rng, 'vcl_dxMy_pz N=%d' % N, lambda: L('vcl_dxMy_pz', None, I_, P_, P_, P_)(N, x.p, y.p, z.p), [z])
    else:
        for f in ('l1c_dnrm2_err', 'l1c_dnrm2_rel_err'):
            both(lib, rng, '%s N=%d' % (f, N), lambda: L(f, D_, I_, P_, P_)(N, x.p, y.p), [])
        if N:
            both(lib, rng, 'l1c_max_vec N=%d' % N, lambda: L('l1c_max_vec', D_, I_, P_)(N, x.p), [])
            x.v[:] = np.abs(x.v) + .1
            both(lib, rng, 'vcl_logsum N=%d' % N, lambda: L('vcl_logsum', D_, I_, D_, P_)(N, 1.5, x.p), [])


@oracle('C19')
def images(lib, rng):
    n, m = (int(rng.integers(2, rng.choice([300, 700]))) for _ in range(2))
    if rng.random() < .3:
        n = 2
    elif rng.random() < .3:
        m = 2
    al = float(rng.normal())
    f = ('l1c_Dx', 'l1c_DxT', 'l1c_DxTDx', 'l1c_Dy', 'l1c_DyT', 'l1c_DyTDy')[rng.integers(0, 6)]
    x, y = Arr(rng.normal(size=n * m)), Arr(rng.normal(size=n * m))
    both(lib, rng, '%s n=%d m=%d' % (f, n, m), lambda: lib.f(f, None, I_, I_, D_, P_, P_)(n, m, al, x.p, y.p), [y])


@oracle('C19')
def bregman(lib, rng):
    n, m = (int(rng.integers(2, 120)) for _ in range(2))
    u, rhs, d, w, w2 = (Arr(rng.normal(size=n * m)) for _ in range(5))
    mu, la = .7, 1.4
    k = rng.integers(0, 5)
    t = 'n=%d m=%d' % (n, m)
    if k == 0:
        both(lib, rng, 'gauss-seidel ' + t, lambda: bf(lib, 'breg_anis_guass_seidel')(n, m, u.p, rhs.p, mu, la), [u])
    elif k == 1:
        both(lib, rng, 'jacobi ' + t, lambda: bf(lib, 'breg_anis_jacobi')(n, m, u.p, w.p, rhs.p, d.p, la), [u])
    elif k == 2:
        both(lib, rng, 'hess_inv_diag ' + t, lambda: bf(lib, 'hess_inv_diag')(n, m, mu, la, d.p), [d])
    elif k == 3:
        both(lib, rng, 'breg_hess_eval ' + t, lambda: lib.f('breg_hess_eval', None, I_, I_, P_, P_, D_, D_, P_, P_)(n, m, u.p, d.p, mu, la, w.p, w2.p), [d])
    else:
        f = Arr(rng.normal(size=n * m))
        both(lib, rng, 'l1c_breg_anistropic_TV ' + t, lambda: float(lib.f('l1c_breg_anistropic_TV', I_, I_, I_, P_, P_, D_, D_, I_, I_)(n, m, u.p, f.p, .001, 5.0, 6, 1)), [u], False)


@oracle('C19')
def newton(lib, rng):
    m = int(rng.choice([rng.integers(1, 20), rng.integers(100, 400)]))
    n = int(rng.integers(1, min(m, 40) + 1))
    o = o_l1qc.Ops(rng, n, m) if m < 50 else None
    if o is None:
        return wide(lib, rng)
    r, a, W, tab, x, u = o_l1qc.record(rng, n, m, o)
    g = o_l1qc.grads(r, a, o.A)
    at, sx = Arr(g['atr']), Arr(m)
    both(lib, rng, 'hess_grad m=%d' % m, lambda: lib.f('_l1c_l1qc_hess_grad', None, P_, P_, P_)(C.byref(r), sx.p, at.p), [sx] + [a[f] for f in ('gradf', 'w1p', 'sig11', 'sig12', 'ntgu')])


def wide(lib, rng):
    m = int(rng.integers(5000, 30000))
    r = o_l1qc.PR()
    r.m, r.n, r.tau, r.epsilon, r.fe_val = m, 1, 2.0, 1.0, -.3
    a = {f: Arr(-rng.uniform(.1, 2, m)) for f in o_l1qc.MV}
    a['gradf'] = Arr(rng.normal(size=2 * m))
    for f, v in a.items():
        setattr(r, f, v.p)
    at, sx = Arr(rng.normal(size=m)), Arr(m)
    both(lib, rng, 'hess_grad m=%d' % m, lambda: lib.f('_l1c_l1qc_hess_grad', None, P_, P_, P_)(C.byref(r), sx.p, at.p), [sx] + [a[f] for f in ('gradf', 'w1p', 'sig11', 'sig12', 'ntgu')])
