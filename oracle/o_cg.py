from base import *

CB = C.CFUNCTYPE(None, I_, P_, P_, P_)


CgP, CgR = layout('l1c_CgParams'), layout('l1c_CgResults')


def spd(rng, n):
    Q = rng.normal(size=(n, n))
    k = rng.integers(0, 4)
    if k == 0:
        A = np.diag(rng.uniform(.1, 5, n))
    elif k == 1:
        A = Q @ Q.T + np.eye(n) * rng.uniform(.01, 2)
    elif k == 2:
        A = (Q + Q.T) / 2
    else:
        q = np.linalg.qr(Q)[0]
        A = q @ np.diag(10 ** rng.uniform(-2, 2, n)) @ q.T
    return np.ascontiguousarray((A + A.T) / 2)


@oracle('C07')
def cg(lib, rng):
    pre = rng.random() < .5
    n = int(rng.integers(1, 9)) if rng.random() < .7 else int(rng.integers(1, 40))
    A = spd(rng, n)
    b = Arr(rvec(rng, n, int(rng.choice([0, 2, 4])))).save()
    if not b.saved @ b.saved > 0:
        return
    x = Arr(np.zeros(n) if rng.random() < .3 else rvec(rng, n, 0)).save()
    M = Arr(rng.uniform(.05, 3, n) if rng.random() < .7 else np.ones(n)).save()
    W = [Arr(n) for _ in range(5 if pre else 4)]
    pw = (C.c_void_p * len(W))(*[w.p.value for w in W])
    mi = int(rng.choice([0, 1, 2, 3, 5, 12, 30]))
    tol = float(rng.choice([0, 1e-8, 1e-3, 1e-1, .5, 2]))
    data = C.c_void_p(0x1234560)
    log, bad = [], []

    def cb(nn, px, py, d):
        if nn != n or d != data.value:
            bad.append('operator called with n=%r data=%r' % (nn, d))
            return
        xi = np.ctypeslib.as_array((C.c_double * n).from_address(px))
        yo = np.ctypeslib.as_array((C.c_double * n).from_address(py))
        yo[:] = A @ xi
        log.append(xi.copy())
    f = CB(cb)
    R = mkstruct('l1c_CgResults', cgres=-5.0, cgiter=-5)
    par = mkstruct('l1c_CgParams', verbose=int(rng.choice([0, -1, 1, 2])), max_iter=mi, tol=tol)
    nm = 'l1c_cgsolve_diag_precond' if pre else 'l1c_cgsolve'
    fn = lib.f(nm, I_, I_, P_, P_, *([P_] if pre else []), P_, CB, P_, P_, CgP)
    a = [n, x.p, b.p] + ([M.p] if pre else []) + [C.cast(pw, C.c_void_p), f, data, C.cast(C.byref(R), C.c_void_p), par]
    st = fn(*a)
    txt = '%s(N=%d,A=%s,b=%s,x0=%s%s,max_iter=%d,tol=%r)' % (nm, n, A.tolist() if n < 7 else '..', b.saved.tolist()[:8], x.saved.tolist()[:8], ',Minv=%s' % M.saved.tolist()[:8] if pre else '', mi, tol)
    need(not bad, txt + ': ' + ''.join(bad[:1]))
    need(st == 0, txt + ': status %d' % st)
    need(b.same() and b.ok() and x.ok() and M.same() and M.ok() and all(w.ok() for w in W), txt + ': frame')
    nb = np.linalg.norm(b.saved)
    tr = lambda v: np.linalg.norm(b.saved - A @ v) / nb
    # reference recurrence
    m = M.saved if pre else np.ones(n)
    xx = x.saved.copy()
    r = b.saved - A @ xx
    z = m * r
    p = z.copy()
    de = r @ z
    hist = [tr(xx)]
    best, bx = hist[0], xx.copy()
    its = 0
    w = np.linalg.eigvalsh(A)
    good = w[0] > 0 and w[-1] / w[0] < 200
    frail = False
    for k in range(mi):
        if k >= (5 if good else 2) and not (good and n <= 4):
            frail = True
            break
        q = A @ p
        pq = p @ q
        if pq == 0 or abs(pq) < 1e-9 * (p @ p) * np.abs(A).max() or np.linalg.norm(r) / nb < 1e-7:
            frail = True
            break
        al = de / pq
        xx = xx + al * p
        r = r - al * q
        z = m * r
        d2 = r @ z
        p = z + d2 / de * p
        de = d2
        its += 1
        rr = np.linalg.norm(r) / nb
        hist.append(rr)
        if abs(rr - tol) < 1e-9 or (abs(rr - best) < 1e-9 * (1 + best)) or rr < 1e-7 or rr > 1e6:
            frail = True
            break
        if rr < best:
            best, bx = rr, xx.copy()
        if rr < tol:
            break
    need(0 <= R.cgiter <= mi, txt + ': cgiter %d outside 0..max_iter' % R.cgiter)
    res = tr(x.v)
    need(R.cgres <= hist[0] * (1 + 1e-9) + 1e-12 or not np.isfinite(hist[0]), txt + ': reported residual %r larger than that of the starting point %r' % (R.cgres, hist[0]))
    need(abs(res - R.cgres) <= 1e-6 * (1 + hist[0]), txt + ': reported residual %r, true residual of the returned x %r' % (R.cgres, res))
    if not frail:
        sc = 1e-6 * (1 + np.abs(hist).max())
        need(R.cgiter == its, txt + ': cgiter %d, expected %d' % (R.cgiter, its))
        need(abs(R.cgres - best) <= sc, txt + ': reported residual %r, smallest over the iterates %r' % (R.cgres, best))
        need(close(x.v, bx, 1e-5, 1e-6), txt + ': returned x %s is not the best iterate %s' % (x.v.tolist()[:8], bx.tolist()[:8]))
