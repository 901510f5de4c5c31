from base import *
from o_tv import Dx, DxT, Dy, DyT

FN = ['breg_shrink1', 'breg_mxpy_z', 'breg_anis_jacobi', 'breg_anis_guass_seidel', 'breg_anis_rhs', 'hess_inv_diag']
SIG = dict(breg_shrink1=(I_, P_, P_, D_), breg_mxpy_z=(I_, P_, P_, P_), breg_anis_jacobi=(I_, I_, P_, P_, P_, P_, D_),
           breg_anis_guass_seidel=(I_, I_, P_, P_, D_, D_), breg_anis_rhs=(I_, I_) + (P_,) * 6 + (D_, D_, P_, P_), hess_inv_diag=(I_, I_, D_, D_, P_))


BF = layout('BregFuncs')


def bf(lib, name):
    g = lib.so.breg_get_functions
    g.restype = BF
    g.argtypes = []
    return C.CFUNCTYPE(None, *SIG[name])(getattr(g(), name))


def shrink(x, g):
    return np.sign(x) * np.maximum(np.abs(x) - g, 0)


def degs(n, m):
    d = np.zeros((n, m))
    d[:, 1:] += 1
    d[:, :-1] += 1
    d[1:] += 1
    d[:-1] += 1
    return d


def gs(n, m, u, rhs, mu, la):
    U, Rh, d = u.reshape(n, m).copy(), rhs.reshape(n, m), degs(n, m)
    for i in range(n):
        for j in range(m):
            s = 0.0
            if i:
                s += U[i - 1, j]
            if i < n - 1:
                s += U[i + 1, j]
            if j:
                s += U[i, j - 1]
            if j < m - 1:
                s += U[i, j + 1]
            U[i, j] = (Rh[i, j] + la * s) / (mu + la * d[i, j])
    return U.ravel()


def jac(n, m, u, rhs, Dg, la):
    U = u.reshape(n, m)
    s = np.zeros((n, m))
    s[1:] += U[:-1]
    s[:-1] += U[1:]
    s[:, 1:] += U[:, :-1]
    s[:, :-1] += U[:, 1:]
    return Dg * (rhs + la * s.ravel())


def dims(rng, hi=7):
    return (int(rng.integers(2, hi)), int(rng.integers(2, hi))) if rng.random() < .8 else (int(rng.integers(2, 20)), int(rng.integers(2, 20)))


@oracle('C04')
def blocks(lib, rng):
    n, m = dims(rng)
    N = n * m
    mu, la = float(rng.uniform(.1, 5)), float(rng.uniform(.1, 9))
    k = FN[rng.integers(0, 6)]
    if k == 'breg_shrink1':
        L = rsize(rng)
        g = float(rng.choice([0, .5, 1, rng.uniform(0, 3)]))
        x, z = Arr(rvec(rng, L)).save(), Arr(L)
        bf(lib, k)(L, x.p, z.p, g)
        need(x.same() and x.ok() and z.ok(), '%s(N=%d) frame' % (k, L))
        need(close(z.v, shrink(x.saved, g), 1e-12, 1e-13), '%s(N=%d,gamma=%r,x=%s) = %s' % (k, L, g, x.saved.tolist()[:20], z.v.tolist()[:20]))
    elif k == 'breg_mxpy_z':
        L = rsize(rng)
        x, y, z = Arr(rvec(rng, L)).save(), Arr(rvec(rng, L)).save(), Arr(L)
        bf(lib, k)(L, x.p, y.p, z.p)
        need(x.same() and y.same() and z.ok() and x.ok() and y.ok(), '%s(N=%d) frame' % (k, L))
        need(close(z.v, y.saved - x.saved, 1e-12, 1e-13), '%s(N=%d) wrong' % (k, L))
    elif k == 'hess_inv_diag':
        z = Arr(N)
        bf(lib, k)(n, m, mu, la, z.p)
        need(z.ok() and close(z.v, 1 / (mu + la * degs(n, m).ravel()), 1e-12, 1e-13), '%s(n=%d,m=%d,mu=%r,lambda=%r) = %s' % (k, n, m, mu, la, z.v.tolist()[:40]))
    elif k == 'breg_anis_jacobi':
        u, w, r, d = Arr(rvec(rng, N)).save(), Arr(N), Arr(rvec(rng, N)).save(), Arr(rvec(rng, N)).save()
        bf(lib, k)(n, m, u.p, w.p, r.p, d.p, la)
        need(u.ok() and w.ok() and r.ok() and d.ok() and r.same() and d.same(), '%s(n=%d,m=%d) frame' % (k, n, m))
        need(close(u.v, jac(n, m, u.saved, r.saved, d.saved, la), 1e-11, 1e-12), '%s(n=%d,m=%d,lambda=%r) wrong for u=%s rhs=%s D=%s' % (k, n, m, la, u.saved.tolist()[:20], r.saved.tolist()[:20], d.saved.tolist()[:20]))
    elif k == 'breg_anis_guass_seidel':
        u, r = Arr(rvec(rng, N)).save(), Arr(rvec(rng, N)).save()
        bf(lib, k)(n, m, u.p, r.p, mu, la)
        need(u.ok() and r.ok() and r.same(), '%s(n=%d,m=%d) frame' % (k, n, m))
        need(close(u.v, gs(n, m, u.saved, r.saved, mu, la), 1e-11, 1e-12), '%s(n=%d,m=%d,mu=%r,lambda=%r) wrong for u=%s rhs=%s' % (k, n, m, mu, la, u.saved.tolist()[:20], r.saved.tolist()[:20]))
    else:
        a = [Arr(rvec(rng, N)).save() for _ in range(5)]
        r, w1, w2 = Arr(N), Arr(N), Arr(N)
        bf(lib, k)(n, m, *[x.p for x in a], r.p, mu, la, w1.p, w2.p)
        need(all(x.ok() for x in a + [r, w1, w2]) and all(x.same() for x in a), '%s(n=%d,m=%d) frame' % (k, n, m))
        f, dx, bx, dy, by = [x.saved for x in a]
        need(close(r.v, mu * f + DxT(n, m, la, dx - bx) + DyT(n, m, la, dy - by), 1e-11, 1e-12), '%s(n=%d,m=%d,mu=%r,lambda=%r) wrong' % (k, n, m, mu, la))


@oracle('C05')
def driver(lib, rng):
    n, m = dims(rng, 6)
    N = n * m
    mu = float(rng.uniform(.2, 8))
    tol = float(rng.choice([0, 1e-3, 1e-2, .1, .5, 10, -1]))
    mi, mj = int(rng.choice([0, 1, 2, 3, 5, 20, -1])), int(rng.choice([0, 1, 1, 2, 3, -1]))
    f = Arr(rvec(rng, N, int(rng.choice([0, 2, 3, 4])))).save()
    u = Arr(rvec(rng, N, 0)).save()
    g = lib.f('l1c_breg_anistropic_TV', I_, I_, I_, P_, P_, D_, D_, I_, I_)
    txt = 'l1c_breg_anistropic_TV(n=%d,m=%d,mu=%r,tol=%r,max_iter=%d,max_jac_iter=%d,f=%s)' % (n, m, mu, tol, mi, mj, f.saved.tolist()[:36])
    if rng.random() < .25:
        at = int(rng.integers(0, 8))
        lib.setfail(at=at)
        st = g(n, m, u.p, f.p, mu, tol, mi, mj)
        cnt = lib.get(0)
        lib.setfail()
        if cnt > at:
            need(st == 8, '%s: allocation %d fails but status %d' % (txt, at, st))
            need(u.same(), '%s: output changed although memory ran out' % txt)
            return
        u.v[:] = u.saved
    st = g(n, m, u.p, f.p, mu, tol, mi, mj)
    need(st == 0, '%s: status %d' % (txt, st))
    need(u.ok() and f.ok() and f.same(), txt + ': frame')
    la = 2 * mu
    uu, up = f.saved.copy(), np.zeros(N)
    dx, dy, bx, by = np.zeros(N), np.zeros(N), np.zeros(N), np.zeros(N)
    near = False
    for it in range(mi):
        rhs = mu * f.saved + DxT(n, m, la, dx - bx) + DyT(n, m, la, dy - by)
        for _ in range(mj):
            uu = gs(n, m, uu, rhs, mu, la)
        yy = up @ up
        err = np.sqrt(((uu - up) @ (uu - up)) / yy) if yy > 0 else np.inf
        ex, ey = Dx(n, m, 1, uu) + bx, Dy(n, m, 1, uu) + by
        dx, dy = shrink(ex, 1 / la), shrink(ey, 1 / la)
        bx, by = ex - dx, ey - dy
        up = uu.copy()
        if abs(err - tol) < 1e-9 * (1 + abs(tol)):
            near = True
        if err < tol:
            break
    if not near:
        need(close(u.v, uu, 1e-8, 1e-9), '%s: returned image differs from the specified iterate: %s vs %s' % (txt, u.v.tolist()[:12], uu.tolist()[:12]))
