from base import *
from o_nesta import view, CB, AX, libc
import os, tempfile

PR = layout('l1c_l1qcProb')
OPT = layout('l1c_L1qcOpts')
RES = layout('l1c_LBResult')
CGP = layout('l1c_CgParams')
CGR = layout('l1c_CgResults')
HD = layout('Hess_data')
MV = ('fu1', 'fu2', 'w1p', 'dx', 'du', 'sig11', 'sig12', 'ntgu')


class Ops:
    def __init__(self, rng, n, m):
        k = rng.random()
        if k < .4:
            q, _ = np.linalg.qr(rng.normal(size=(m, m)))
            A = q[:n].copy()
        elif k < .8:
            A = rng.normal(size=(n, m)) / np.sqrt(m)
        else:
            A = np.eye(m)[rng.permutation(m)[:n]]
        self.A = A
        self.keep = []

        def mk(f, li, lo):
            def g(x, y):
                view(y, lo)[:] = f(view(x, li).copy())
            c = CB(g)
            self.keep.append(c)
            return C.cast(c, P_)
        t = AX()
        t.n, t.m, t.p, t.q, t.norm_W = n, m, m, m, 1.0
        ax, aty, ata = mk(lambda x: A @ x, m, n), mk(lambda y: A.T @ y, n, m), mk(lambda x: A.T @ (A @ x), m, m)
        idm = mk(lambda x: x, m, m)
        for f, v in dict(Ax=ax, Aty=aty, Rx=ax, Rty=aty, AtAx=ata, Wz=idm, Wtx=idm, Mx=idm, Mty=idm).items():
            setattr(t, f, v)
        self.t = t
        self.ata = ata


def record(rng, n, m, o, feasible=True):
    r = PR()
    r.m, r.n = m, n
    a = {}
    for f, l in dict({f: m for f in MV}, b=n, r=n, gradf=2 * m).items():
        a[f] = Arr(rng.normal(size=l))
        setattr(r, f, a[f].p)
    W = [Arr(rng.normal(size=m)) for _ in range(7)]
    tab = (P_ * 7)(*[w.p for w in W])
    r.DWORK7 = C.cast(tab, P_)
    r.ax_funs = type(r.ax_funs).from_buffer_copy(o.t)
    r.tau, r.epsilon = float(rng.uniform(.3, 30)), float(rng.uniform(.05, 2))
    x = rvec(rng, m, int(rng.integers(0, 6)))
    u = np.abs(x) + rng.uniform(.01, 1, m)
    v = rng.normal(size=n)
    b = o.A @ x - v / np.linalg.norm(v) * r.epsilon * rng.choice([0.0, .1, .5, .9, .999])
    a['b'].v[:] = b
    if feasible:
        a['r'].v[:] = o.A @ x - b
        a['fu1'].v[:] = x - u
        a['fu2'].v[:] = -x - u
        r.fe_val = .5 * (a['r'].v @ a['r'].v - r.epsilon ** 2)
        r.f_val = float(rng.normal())
    for q in list(a.values()):
        q.save()
    return r, a, W, tab, x, u


def frame(a, W, changed, txt):
    for k, q in a.items():
        need(q.ok(), txt + ': wrote outside %s' % k)
        if k not in changed:
            need(q.same(), txt + ': %s changed' % k)
    for i, w in enumerate(W):
        need(w.ok(), txt + ': wrote outside DWORK7[%d]' % i)


def grads(r, a, A):
    f1, f2, fe, tau = a['fu1'].saved, a['fu2'].saved, r.fe_val, r.tau
    atr = A.T @ a['r'].saved
    o1, o2 = 1 / f1, 1 / f2
    z, u = o1 - o2 + atr / fe, -tau - o1 - o2
    s11, s12 = o1 ** 2 + o2 ** 2, o2 ** 2 - o1 ** 2
    return dict(atr=atr, gradf=-np.concatenate([z, u]) / tau, sig11=s11, sig12=s12, sigx=s11 - s12 ** 2 / s11, w1p=z - s12 / s11 * u, ntgu=u)


def shape(rng):
    m = int(rng.integers(1, 14)) if rng.random() < .9 else int(rng.integers(14, 90))
    return int(rng.integers(1, m + 1)), m


@oracle('C15', 'C16')
def feval(lib, rng):
    n, m = shape(rng)
    o = Ops(rng, n, m)
    r, a, W, tab, x, u = record(rng, n, m, o, False)
    k = rng.random()
    if k < .2:
        u[rng.integers(0, m)] *= -1
    elif k < .4:
        a['b'].v[:] += rng.normal(size=n) * 3
    X, U = Arr(x).save(), Arr(u).save()
    a['b'].save()
    f = lib.f('_l1c_l1qc_f_eval', D_, P_, P_, P_)(C.byref(r), X.p, U.p)
    txt = 'l1qc_f_eval n=%d m=%d tau=%r eps=%r x=%s u=%s' % (n, m, r.tau, r.epsilon, x.tolist(), u.tolist())
    need(X.same() and U.same() and X.ok() and U.ok(), txt + ': point changed')
    frame(a, W, ('r', 'fu1', 'fu2'), txt)
    rr = o.A @ x - a['b'].saved
    need(close(a['r'].v, rr) and close(a['fu1'].v, x - u) and close(a['fu2'].v, -x - u), txt + ': stored r, fu1, fu2')
    fe = .5 * (rr @ rr - r.epsilon ** 2)
    need(close(r.fe_val, fe), txt + ': fe_val %r expected %r' % (r.fe_val, fe))
    with np.errstate(all='ignore'):
        w = np.sum(u) - (np.sum(np.log(u - x)) + np.sum(np.log(u + x)) + np.log(-fe)) / r.tau
    if np.isfinite(w):
        need(close(f, w, 1e-8, 1e-8) and r.f_val == f, txt + ': value %r (stored %r) expected %r' % (f, r.f_val, w))
    else:
        need(not np.isfinite(f), txt + ': value %r at an infeasible point' % f)


@oracle('C15')
def hess(lib, rng):
    n, m = shape(rng)
    o = Ops(rng, n, m)
    r, a, W, tab, x, u = record(rng, n, m, o)
    if rng.random() < .5:
        h = HD()
        atr, sx = Arr(rng.normal(size=m)).save(), Arr(rng.normal(size=m)).save()
        wk = Arr(rng.normal(size=m)).save()
        h.one_by_fe, h.one_by_fe_sqrd, h.atr, h.sigx, h.Dwork_1m, h.AtAx = float(rng.normal()), float(rng.normal()), atr.p, sx.p, wk.p, o.ata
        z, y = Arr(rvec(rng, m)).save(), Arr(m)
        lib.f('_l1c_l1qc_H11pfun', None, I_, P_, P_, P_)(m, z.p, y.p, C.byref(h))
        w = sx.saved * z.saved - h.one_by_fe * (o.A.T @ (o.A @ z.saved)) + h.one_by_fe_sqrd * (atr.saved @ z.saved) * atr.saved
        txt = 'l1qc_H11pfun n=%d m=%d z=%s' % (n, m, z.saved.tolist())
        need(z.same() and atr.same() and sx.same() and y.ok(), txt + ': inputs changed')
        need(close(y.v, w), txt + ': %s expected %s' % (y.v.tolist(), w.tolist()))
        return
    g = grads(r, a, o.A)
    at, sx = Arr(g['atr']).save(), Arr(m)
    lib.f('_l1c_l1qc_hess_grad', None, P_, P_, P_)(C.byref(r), sx.p, at.p)
    txt = 'l1qc_hess_grad n=%d m=%d tau=%r eps=%r x=%s u=%s' % (n, m, r.tau, r.epsilon, x.tolist(), u.tolist())
    frame(a, W, ('gradf', 'w1p', 'sig11', 'sig12', 'ntgu'), txt)
    need(at.same() and sx.ok(), txt + ': atr changed')
    for f in ('gradf', 'w1p', 'sig11', 'sig12', 'ntgu'):
        need(close(a[f].v, g[f], 1e-8, 1e-8), txt + ': %s = %s expected %s' % (f, a[f].v.tolist(), g[f].tolist()))
    need(close(sx.v, g['sigx'], 1e-8, 1e-8), txt + ': sigx')


@oracle('C15')
def direction(lib, rng):
    n, m = shape(rng)
    o = Ops(rng, n, m)
    r, a, W, tab, x, u = record(rng, n, m, o)
    g = grads(r, a, o.A)
    if np.linalg.norm(g['w1p']) < 1e-9:
        return
    if rng.random() < .4:
        a['dx'].v[:] = 0
    elif rng.random() < .3:
        a['dx'].v[:] = rng.normal(size=m) * 100
    a['dx'].save()
    p = CGP()
    p.verbose, p.max_iter, p.tol = 0, int(rng.choice([0, 1, 2, 200, 400])), float(rng.choice([1e-1, 1e-12]))
    res = CGR()
    st = lib.f('_l1c_l1qc_descent_dir', I_, P_, CGP, P_)(C.byref(r), p, C.byref(res))
    txt = 'l1qc_descent_dir n=%d m=%d tau=%r eps=%r max_iter=%d tol=%r x=%s u=%s dx=%s' % (n, m, r.tau, r.epsilon, p.max_iter, p.tol, x.tolist(), u.tolist(), a['dx'].saved.tolist())
    frame(a, W, ('gradf', 'w1p', 'sig11', 'sig12', 'ntgu', 'dx', 'du'), txt)
    for f in ('gradf', 'w1p', 'sig11', 'sig12', 'ntgu'):
        need(close(a[f].v, g[f], 1e-8, 1e-8), txt + ': %s' % f)
    fe = r.fe_val
    H = np.diag(g['sigx']) - o.A.T @ o.A / fe + np.outer(g['atr'], g['atr']) / fe ** 2
    nr = lambda z: np.linalg.norm(g['w1p'] - H @ z) / np.linalg.norm(g['w1p'])
    dx = a['dx'].v
    cond = np.linalg.cond(H)
    if cond < 1e7:
        need(close(res.cgres, nr(dx), 1e-5, 1e-5), txt + ': reported residual %r, true %r' % (res.cgres, nr(dx)))
        need(res.cgres <= nr(a['dx'].saved) * (1 + 1e-6) + 1e-9, txt + ': worse than the start')
        if p.max_iter >= 200 and p.tol < 1e-9 and cond < 1e5:
            need(nr(dx) < 1e-6, txt + ': not solved (%r)' % nr(dx))
    if abs(res.cgres - .5) > 1e-6:
        need(st == (512 if res.cgres > .5 else 0), txt + ': status %d residual %r' % (st, res.cgres))
    if st == 0:
        w = g['ntgu'] / g['sig11'] - g['sig12'] / g['sig11'] * dx
        need(close(a['du'].v, w, 1e-8, 1e-8), txt + ': du')


@oracle('C16')
def maxstep(lib, rng):
    n, m = shape(rng)
    o = Ops(rng, n, m)
    r, a, W, tab, x, u = record(rng, n, m, o)
    k = rng.random()
    sc = 10.0 ** rng.integers(-3, 3)
    dx, du = rng.normal(size=m) * sc, rng.normal(size=m) * sc
    if k < .1:
        dx[:] = 0
    elif k < .2:
        du = -np.abs(dx) * rng.uniform(0, 3)
    elif k < .3:
        du = np.abs(dx) + rng.uniform(0, 1, m)
    elif k < .4:
        dx, du = np.zeros(m), -np.abs(du)
    elif k < .5:
        j = rng.integers(0, m)
        dx[:], du[:] = 0, 0
        dx[j] = sc
    elif k < .55:
        j = rng.integers(0, m)
        dx[:], du[:] = 0, 0
        dx[j] = -sc
    elif k < .6:
        v = rng.normal(size=m)
        dx, du = v, v.copy()
    a['dx'].v[:], a['du'].v[:] = dx, du
    a['dx'].save(), a['du'].save()
    s = lib.f('_l1c_l1qc_find_max_step', D_, P_)(C.byref(r))
    txt = 'l1qc_find_max_step n=%d m=%d eps=%r x=%s u=%s dx=%s du=%s' % (n, m, r.epsilon, x.tolist(), u.tolist(), dx.tolist(), du.tolist())
    frame(a, W, (), txt)
    need(0 < s <= .99 + 1e-15, txt + ': step %r' % s)
    rr, Ad = a['r'].saved, o.A @ dx
    for t in (s, s / 2, s * .9):
        need((a['fu1'].saved + t * (dx - du) < 0).all() and (a['fu2'].saved + t * (-dx - du) < 0).all(), txt + ': |x|<u fails at step %r' % t)
        need(np.linalg.norm(rr + t * Ad) < r.epsilon, txt + ': ||Ax-b|| = %r >= eps at step %r' % (np.linalg.norm(rr + t * Ad), t))


@oracle('C16')
def start(lib, rng):
    n, m = shape(rng)
    o = Ops(rng, n, m)
    if rng.random() < .5:
        x = rvec(rng, m)
        if not np.abs(x).sum():
            x[rng.integers(0, m)] = -1.0
        X, U = Arr(x).save(), Arr(m)
        p = OPT(mu=float(rng.uniform(1.1, 20)), lbtol=float(10 ** rng.uniform(-6, 0)), tau=float(rng.uniform(0, 9)), lbiter=int(rng.choice([0, 0, 1, 7])), epsilon=.1)
        old = OPT.from_buffer_copy(p)
        st = lib.f('_l1c_l1qc_newton_init', I_, I_, P_, P_, P_)(m, X.p, U.p, C.byref(p))
        txt = 'l1qc_newton_init m=%d x=%s' % (m, x.tolist())
        need(st == 0 and X.same() and X.ok() and U.ok(), txt + ': x changed')
        need((U.v > np.abs(x)).all(), txt + ': u = %s not above |x|' % U.v.tolist())
        need(close(U.v, .95 * np.abs(x) + .1 * np.max(np.abs(x))), txt + ': u = %s' % U.v.tolist())
        tau = max((2 * m + 1) / np.abs(x).sum(), 1)
        need(close(p.tau, tau), txt + ': tau %r expected %r' % (p.tau, tau))
        q = (np.log(2.0 * m + 1) - np.log(p.lbtol) - np.log(tau)) / np.log(p.mu)
        if old.lbiter == 0:
            need(abs(q - round(q)) < 1e-9 or p.lbiter == int(np.ceil(q)), txt + ': lbiter %d expected %r' % (p.lbiter, np.ceil(q)))
        else:
            need(p.lbiter == old.lbiter, txt + ': lbiter changed')
        return
    r, a, W, tab, x, u = record(rng, n, m, o)
    x = x + rng.normal(size=m) * rng.choice([0, .1, 1])
    X = Arr(x).save()
    st = lib.f('_l1c_l1qc_check_feasible_start', I_, P_, P_)(C.byref(r), X.p)
    nn = np.linalg.norm(o.A @ x - a['b'].saved)
    txt = 'l1qc_check_feasible_start n=%d m=%d eps=%r ||Ax-b||=%r' % (n, m, r.epsilon, nn)
    need(X.same(), txt + ': x changed')
    frame(a, W, (), txt)
    if abs(nn - r.epsilon) > 1e-9:
        need(st == (2 if nn > r.epsilon else 0), txt + ': status %d' % st)


@oracle('C16')
def driver(lib, rng):
    n, m = shape(rng)
    if m > 20:
        m = 20
        n = min(n, m)
    o = Ops(rng, n, m)
    eps = float(10 ** rng.uniform(-2, .5))
    x = rvec(rng, m, int(rng.choice([0, 0, 2, 3, 4, 5])))
    if not np.abs(x).sum():
        x[rng.integers(0, m)] = 1.0
    v = rng.normal(size=n)
    k = float(rng.choice([0.0, .3, .9, .9999, 1.01, 1.5, 20]))
    b = o.A @ x - v / np.linalg.norm(v) * eps * k
    p = OPT(epsilon=eps, mu=float(rng.uniform(1.5, 20)), lbtol=float(10 ** rng.uniform(-4, -1)), tau=float(rng.uniform(0, 9)), lbiter=int(rng.choice([0, 0, 1, 3, -1])),
            newton_tol=float(10 ** rng.uniform(-9, -1)), newton_max_iter=int(rng.choice([0, 1, 2, 5, 40])), verbose=int(rng.choice([0, 0, 0, 1, 2, 3])), l1_tol=float(rng.choice([0, 1e-5, 1e-2])),
            cg_tol=float(rng.choice([1e-8, 1e-2, .9])), cg_maxiter=int(rng.choice([0, 1, 2, 200])), cg_verbose=int(rng.choice([0, 0, 0, 1])), warm_start_cg=int(rng.choice([0, 1, 2])))
    X, B = Arr(x).save(), Arr(b).save()
    lib.reset()
    fail = rng.random() < .15
    lib.setfail(at=int(rng.integers(0, 20))) if fail else lib.setfail()
    fn = lib.f('l1c_l1qc_newton', RES, I_, P_, I_, P_, OPT, AX)
    txt = 'l1qc_newton n=%d m=%d %s ||Ax0-b||/eps=%r x0=%s' % (n, m, ' '.join('%s=%r' % (f, getattr(p, f)) for f, *_ in OPT._fields_), k, x.tolist())
    sys.stdout.flush()
    libc.fflush(None)
    with tempfile.TemporaryFile() as tf:
        old, old2 = os.dup(1), os.dup(2)
        os.dup2(tf.fileno(), 1), os.dup2(tf.fileno(), 2)
        try:
            res = fn(m, X.p, n, B.p, p, o.t)
            libc.fflush(None)
        finally:
            os.dup2(old, 1), os.dup2(old2, 2)
            os.close(old), os.close(old2)
    lib.setfail()
    need(B.same() and B.ok() and X.ok(), txt + ': b changed or output overrun')
    need(lib.get(1) == 0 and lib.get(2) == 0, txt + ': %d blocks leaked' % lib.get(1))
    need(close(res.l1, np.abs(X.v).sum()), txt + ': reported l1 %r of %s' % (res.l1, X.v.tolist()))
    if fail and res.status == 8:
        need(X.same(), txt + ': x touched when memory is exhausted')
        return
    if k > 1:
        need(res.status == 2 and X.same(), txt + ': infeasible start: status %d, x %s' % (res.status, X.v.tolist()))
        return
    need(res.status == 0, txt + ': status %d' % res.status)
    nn = np.linalg.norm(o.A @ X.v - b)
    need(nn <= eps * (1 + 1e-9), txt + ': returned ||Ax-b|| = %r > eps (x=%s)' % (nn, X.v.tolist()))
