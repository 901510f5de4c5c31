from base import *


def chk(*arrs):
    for a in arrs:
        need(a.ok(), 'memory outside the array was written')


@oracle('C01')
def elementwise(lib, rng):
    N = rsize(rng)
    a, b = [float(x) for x in rvec(rng, 2)]
    x, y, z = Arr(rvec(rng, N)).save(), Arr(rvec(rng, N)).save(), Arr(rvec(rng, N)).save()
    w = rng.integers(0, 7)
    nm = ['__l1c_daxpby', 'l1c_init_vec', 'l1c_dxmuly_z', 'l1c_daxpby_z', 'l1c_daxpy_z', 'l1c_abs_vec', 'vcl_dxMy_pz'][w]
    out = z
    if w == 0:
        lib.f(nm, None, I_, D_, P_, D_, P_)(N, a, x.p, b, z.p)
        exp = a * x.saved + b * z.saved
    elif w == 1:
        lib.f(nm, None, I_, P_, D_)(N, z.p, a)
        exp = np.full(N, a)
    elif w == 2:
        lib.f(nm, None, I_, P_, P_, P_)(N, x.p, y.p, z.p)
        exp = x.saved * y.saved
    elif w == 3:
        lib.f(nm, None, I_, D_, P_, D_, P_, P_)(N, a, x.p, b, y.p, z.p)
        exp = a * x.saved + b * y.saved
    elif w == 4:
        lib.f(nm, None, I_, D_, P_, P_, P_)(N, a, x.p, y.p, z.p)
        exp = a * x.saved + y.saved
    elif w == 5:
        if rng.random() < .4:
            out = x
        lib.f(nm, None, I_, P_, P_)(N, x.p, out.p)
        exp = np.abs(x.saved)
    else:
        lib.f(nm, None, I_, P_, P_, P_)(N, x.p, y.p, z.p)
        exp = x.saved * y.saved + z.saved
    chk(x, y, z)
    need(close(out.v, exp, 1e-12, 1e-13), '%s(N=%d, a=%r, b=%r): output differs: got %s expected %s' % (nm, N, a, b, out.v[:8], exp[:8]))
    for q, n in ((x, 'x'), (y, 'y')):
        need(q is out or q.same(), '%s(N=%d): input %s was modified' % (nm, N, n))


@oracle('C02')
def reductions(lib, rng):
    N = rsize(rng)
    a = float(abs(rvec(rng, 1)[0]) + .1)
    x, y = Arr(rvec(rng, N)).save(), Arr(rvec(rng, N)).save()
    w = int(rng.integers(0, 8))
    nm = ['l1c_dnorm1', 'l1c_dsum', 'l1c_dlogsum', 'l1c_dnrm2_rel_err', 'l1c_dnrm2_err', 'l1c_max_vec', 'vcl_sum', 'vcl_logsum'][w]
    if w in (2, 7):
        x = Arr(np.abs(x.v) + .01).save()
        r = lib.f(nm, D_, I_, D_, P_)(N, a, x.p)
        e = float(np.log(a * x.saved).sum())
    elif w in (3, 4):
        if w == 3 and N and not y.v.any():
            y = Arr(np.ones(N)).save()
        if w == 3 and N == 0:
            return
        r = lib.f(nm, D_, I_, P_, P_)(N, x.p, y.p)
        e = float(np.linalg.norm(x.saved - y.saved))
        if w == 3:
            e /= float(np.linalg.norm(y.saved))
    elif w == 5:
        n = N if rng.random() < .9 else -int(rng.integers(0, 3))
        if rng.random() < .5:
            x = Arr(-np.abs(x.v) - rng.integers(0, 2)).save()
        r = lib.f(nm, D_, I_, P_)(n, x.p)
        e = float(x.saved.max()) if n > 0 else float('nan')
    else:
        r = lib.f(nm, D_, I_, P_)(N, x.p)
        e = float(np.abs(x.saved).sum() if w == 0 else x.saved.sum())
    chk(x, y)
    sc = float(np.abs(x.saved).sum()) + 1
    need((np.isnan(r) and np.isnan(e)) or abs(r - e) <= 1e-10 * (sc + abs(e)), '%s(N=%d): returned %r, expected %r for x=%s' % (nm, N, r, e, x.saved[:8]))
    need(x.same() and y.same(), '%s modified an input' % nm)
