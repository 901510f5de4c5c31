from base import *
import os, tempfile

AX = layout('l1c_AxFuns')
NPT = layout('l1c_NestaProb')
OPT = layout('l1c_NestaOpts')
CB = C.CFUNCTYPE(None, P_, P_)
NM, LIM = 10, 10000
libc = C.CDLL(None)


def view(p, n):
    return np.ctypeslib.as_array((D_ * max(n, 1)).from_address(p))[:n]


class Ops:
    """operator table with orthonormal-row A (n by m) and dictionary W (m by p)"""
    def __init__(self, rng, n, m, p):
        q, _ = np.linalg.qr(rng.normal(size=(m, m)))
        self.A = q[:n].copy()
        W = rng.normal(size=(m, p)) if rng.random() < .6 else np.hstack([np.eye(m), rng.normal(size=(m, p - m))])
        self.W = W / np.linalg.norm(W, 2)
        self.nw = float(rng.choice([1.0, 1.5]))
        A, W = self.A, self.W
        self.keep = []

        def mk(f, li, lo):
            def g(x, y):
                view(y, lo)[:] = f(view(x, li).copy())
            c = CB(g)
            self.keep.append(c)
            return C.cast(c, P_)
        fwd, adj = (lambda x: A @ x), (lambda y: A.T @ y)
        t = AX()
        t.n, t.m, t.p, t.q, t.norm_W = n, m, p, m, self.nw
        ax, aty = mk(fwd, m, n), mk(adj, n, m)
        for f, v in dict(Ax=ax, Aty=aty, Rx=ax, Rty=aty, AtAx=mk(lambda x: A.T @ (A @ x), m, m), Wz=mk(lambda z: W @ z, p, m), Wtx=mk(lambda x: W.T @ x, m, p),
                         Mx=mk(lambda x: x, m, m), Mty=mk(lambda x: x, m, m)).items():
            setattr(t, f, v)
        self.t = t


def shape(rng):
    m = int(rng.integers(1, 14))
    return int(rng.integers(1, m + 1)), m, m + int(rng.integers(0, 9))


def feval(W, mu, x):
    w = W.T @ x
    u = w / np.maximum(mu, np.abs(w))
    return float(u @ w - .5 * mu * (u @ u)), W @ u


def project(A, b, sg, Lmu, x, g):
    q = x - g / Lmu
    r = np.linalg.norm(A @ q - b)
    lam = max(0.0, Lmu * (r / sg - 1))
    # minimiser with multiplier lam, AA'=I
    a1 = lam / (Lmu + lam)
    return q - a1 * (A.T @ (A @ q - b))


def record(lib, rng, n, m, p, o):
    r = NPT()
    r.n, r.m, r.p = n, m, p
    a = {}
    for f, l in dict(xo=m, xk=m, yk=m, zk=m, Atb=m, gradf=m, gradf_sum=m, dwork1=max(m, p), dwork2=max(m, p)).items():
        a[f] = Arr(rng.normal(size=l))
        setattr(r, f, a[f].p)
    a['b'] = Arr(rng.normal(size=n))
    r.b = a['b'].p
    r.ax_funs = type(r.ax_funs).from_buffer_copy(o.t)
    r.sigma, r.mu_j, r.tol_j, r.mu, r.tol = (float(x) for x in rng.uniform(.05, 2, 5))
    r.L = float(rng.uniform(.3, 3))
    r.n_continue = 3
    for x in a.values():
        x.save()
    return r, a


def frame(a, r, changed, txt):
    for k, x in a.items():
        need(x.ok(), txt + ': wrote outside %s' % k)
        if k not in changed and k not in ('dwork1', 'dwork2'):
            need(x.same(), txt + ': %s changed' % k)


@oracle('C13', 'C14')
def blocks(lib, rng):
    n, m, p = shape(rng)
    o = Ops(rng, n, m, p)
    r, a = record(lib, rng, n, m, p, o)
    what = rng.integers(0, 3)
    if what == 0:
        mu = r.mu_j
        lib.f('l1c_nesta_feval', None, P_)(C.byref(r))
        txt = 'nesta_feval n=%d m=%d p=%d mu=%r x=%s' % (n, m, p, mu, a['xk'].saved.tolist())
        f, g = feval(o.W, mu, a['xk'].saved)
        frame(a, r, ('gradf',), txt)
        need(close(r.fx, f), txt + ': value %r expected %r' % (r.fx, f))
        need(close(a['gradf'].v, g), txt + ': gradient %s expected %s' % (a['gradf'].v.tolist(), g.tolist()))
    elif what == 1:
        a['Atb'].v[:] = o.A.T @ a['b'].v
        a['Atb'].save()
        if rng.random() < .3:
            r.sigma = 50.0
        xx, g, v = Arr(rvec(rng, m, 0)).save(), Arr(rvec(rng, m, 1)).save(), Arr(m)
        lib.f('l1c_nesta_project', None, P_, P_, P_, P_)(C.byref(r), xx.p, g.p, v.p)
        txt = 'nesta_project n=%d m=%d sigma=%r L=%r mu=%r x=%s g=%s' % (n, m, r.sigma, r.L, r.mu_j, xx.saved.tolist(), g.saved.tolist())
        frame(a, r, (), txt)
        need(xx.same() and g.same() and v.ok(), txt + ': input changed')
        w = project(o.A, a['b'].saved, r.sigma, r.L / r.mu_j, xx.saved, g.saved)
        need(close(v.v, w, 1e-8, 1e-8), txt + ': %s expected %s' % (v.v.tolist(), w.tolist()))
    else:
        opts = OPT(mu=float(rng.uniform(1e-5, 1)), tol=float(rng.uniform(1e-5, .5)), sigma=float(rng.uniform(.1, 2)), n_continue=int(rng.integers(1, 9)), verbose=0)
        bm, bt = D_(), D_()
        b = Arr(rng.normal(size=n)).save()
        fn = lib.f('l1c_nesta_setup', I_, P_, P_, P_, P_, AX, P_)
        t = o.t
        drop = None
        if rng.random() < .3:
            t = AX.from_buffer_copy(t)
            drop = ('Wz', 'Wtx', 'Rx', 'Rty')[rng.integers(0, 4)]
            setattr(t, drop, None)
        st = fn(C.byref(r), C.byref(bm), C.byref(bt), b.p, t, C.byref(opts))
        txt = 'nesta_setup n=%d m=%d p=%d mu=%r tol=%r n_continue=%d' % (n, m, p, opts.mu, opts.tol, opts.n_continue)
        need(b.same() and b.ok(), txt + ': b changed')
        if drop:
            need(st == 8192, txt + ' without %s: status %d' % (drop, st))
            return
        need(st == 0, txt + ': status %d' % st)
        frame(a, r, ('Atb', 'xo'), txt)
        atb = o.A.T @ b.saved
        mu0 = .9 * np.max(np.abs(o.W.T @ atb))
        need(close(a['Atb'].v, atb) and close(a['xo'].v, atb), txt + ": start is not A'b")
        need(close(r.mu_j, mu0) and close(r.tol_j, .1), txt + ': mu0 %r tol0 %r expected %r 0.1 (W\'A\'b=%s)' % (r.mu_j, r.tol_j, mu0, (o.W.T @ atb).tolist()))
        need(close(bm.value ** opts.n_continue * mu0, opts.mu, 1e-8) and close(bt.value ** opts.n_continue * .1, opts.tol, 1e-8), txt + ': factors %r %r' % (bm.value, bt.value))
        need(r.L == o.nw * o.nw and r.sigma == opts.sigma and r.mu == opts.mu and r.tol == opts.tol and r.n_continue == opts.n_continue and r.b == b.v.ctypes.data, txt + ': record')


@oracle('C14')
def window(lib, rng):
    class F(C.Structure):
        _fields_ = [('f_vals', P_), ('n_total', I_), ('next', P_)]
    lib.reset()
    lib.setfail()
    f = lib.f('_l1c_new_fmean_fifo', F)()
    need(f.f_vals, 'window allocation')
    push, mean = lib.f('_l1c_push_fmeans_fifo', None, P_, D_), lib.f('_l1c_mean_fmean_fifo', D_, P_)
    vals = []
    for _ in range(int(rng.integers(1, 35))):
        v = float(rng.normal())
        vals.append(v)
        push(C.byref(f), v)
        w = float(np.mean(vals[-NM:]))
        g = mean(C.byref(f))
        need(close(g, w, 1e-11, 1e-11), 'window mean after %d values %s: %r expected %r' % (len(vals), vals[-12:], g, w))
    fr = lib.f('vc_free', None, P_) if hasattr(lib.so, 'vc_free') else libc.free
    fr.argtypes = [P_]
    fr(f.f_vals)


def reference(A, W, L, b, o):
    atb = A.T @ b
    mu, tol = .9 * np.max(np.abs(W.T @ atb)), .1
    bm, bt = (o.mu / mu) ** (1 / o.n_continue), (o.tol / tol) ** (1 / o.n_continue)
    x, xo = atb.copy(), atb.copy()
    marg = np.inf
    its = []
    for _ in range(o.n_continue):
        mu, tol = mu * bm, tol * bt
        gs = np.zeros_like(x)
        vals = []
        for k in range(LIM):
            f, g = feval(W, mu, x)
            y = project(A, b, o.sigma, L / mu, x, g)
            gs = gs + .5 * (k + 1) * g
            z = project(A, b, o.sigma, L / mu, xo, gs)
            tau = 2 / (k + 3)
            x = tau * z + (1 - tau) * y
            stop = False
            if vals:
                fb = np.mean(vals[-NM:])
                if fb != 0:
                    rel = abs(f - fb) / fb
                    marg = min(marg, abs(rel - tol) / tol)
                    stop = rel < tol
                else:
                    marg = 0
            vals.append(f)
            if stop:
                break
        its.append(len(vals))
        xo = x.copy()
    return x, marg, its


@oracle('C14')
def driver(lib, rng):
    n, m, p = shape(rng)
    o = Ops(rng, n, m, p)
    opts = OPT(mu=float(10 ** rng.uniform(-3, -.5)), tol=float(10 ** rng.uniform(-3, -1)), sigma=float(rng.uniform(.05, .6)), n_continue=int(rng.integers(1, 6)), verbose=int(rng.choice([0, 0, -1, 1, 2, 5, 13])))
    b = Arr(rng.normal(size=n)).save()
    x = Arr(m).save()
    fn = lib.f('l1c_nesta', I_, I_, P_, I_, P_, AX, OPT)
    txt = 'nesta n=%d m=%d p=%d mu=%r tol=%r sigma=%r n_continue=%d verbose=%d' % (n, m, p, opts.mu, opts.tol, opts.sigma, opts.n_continue, opts.verbose)
    libc.fflush(None)
    lib.reset()
    lib.setfail()
    kind = rng.random()
    mm, nn, t = m, n, o.t
    want = 0
    if kind < .1:
        mm += int(rng.choice([-1, 1]))
        want = 2048
    elif kind < .2:
        nn += int(rng.choice([-1, 1]))
        want = 2048
    elif kind < .3:
        t = AX.from_buffer_copy(t)
        setattr(t, ('Wz', 'Wtx', 'Rx', 'Rty')[rng.integers(0, 4)], None)
        want = 8192
    elif kind < .4:
        lib.setfail(at=int(rng.integers(0, 11)))
        want = 8
    sys.stdout.flush()
    with tempfile.TemporaryFile() as tf:
        old = os.dup(1)
        os.dup2(tf.fileno(), 1)
        try:
            st = fn(mm, x.p, nn, b.p, t, opts)
            libc.fflush(None)
        finally:
            os.dup2(old, 1)
            os.close(old)
        tf.seek(0)
        out = tf.read()
    lib.setfail()
    need(opts.verbose > 0 or out == b'', txt + ': printed %r' % out[:80])
    need(b.same() and b.ok() and x.ok(), txt + ': b changed or output overrun')
    need(lib.get(1) == 0 and lib.get(2) == 0, txt + ': %d blocks leaked' % lib.get(1))
    if want == 8 and st == 0:
        pass            # fewer allocations than the index chosen
    else:
        need(st == want, txt + ': status %d expected %d' % (st, want))
        if want:
            need(x.same(), txt + ': output touched on failure')
            return
    need(np.linalg.norm(o.A @ x.v - b.saved) <= opts.sigma * (1 + 1e-9), txt + ': ||Ax-b|| = %r > sigma' % np.linalg.norm(o.A @ x.v - b.saved))
    ref, marg, its = reference(o.A, o.W, o.nw ** 2, b.saved, opts)
    if marg > 1e-7:
        need(close(x.v, ref, 1e-6, 1e-6), txt + ': returned %s, the recurrence gives %s (iterations %s)' % (x.v.tolist(), ref.tolist(), its))
