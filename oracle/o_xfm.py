from base import *
import scipy.fft as sf

AX = layout('l1c_AxFuns')
OP = C.CFUNCTYPE(None, P_, P_)
VOID = C.CFUNCTYPE(None)


def tab(s):
    return {f: getattr(s, f) for f, _ in AX._fields_}


def history(lib, rng, txt, s, ops, user, nops=14):
    """random sequence of operator calls through the table; every call must give the reference map"""
    t = tab(s)
    for f in ops:
        need(t[f], txt + ': table entry %s is null' % f)
    seq = []
    for _ in range(nops):
        f = list(ops)[rng.integers(0, len(ops))]
        Li, Lo, ref = ops[f]
        x = Arr(rvec(rng, Li, int(rng.choice([0, 1, 2, 3])))).save()
        y = Arr(np.zeros(Lo) if rng.random() < .4 else rng.normal(size=Lo))
        seq.append(f)
        OP(t[f])(x.p, y.p)
        w = '%s after calls %s: input %s' % (txt, seq, x.saved.tolist()[:12])
        need(y.ok() and x.ok(), w + ': wrote outside its arrays')
        need(x.same(), w + ': input changed to %s' % x.v.tolist()[:12])
        r = ref(x.saved)
        need(close(y.v, r, 1e-9, 1e-9), w + ': %s gave %s, expected %s' % (f, y.v.tolist()[:12], np.asarray(r).tolist()[:12]))
        for u in user:
            need(u.same() and u.ok(), w + ': caller data changed')


def clean(lib, txt, k=0):
    need(lib.get(1) == 0, txt + ": %d blocks leaked" % lib.get(1))
    need(lib.get(4) == 0, txt + ': %d plans leaked' % lib.get(4))
    need(lib.get(2) == 0 and lib.get(5) == 0, txt + ": bad release")


@oracle('C08', 'C11')
def matrix(lib, rng):
    n, m = int(rng.integers(1, 12)), int(rng.integers(1, 12))
    A = Arr(rvec(rng, n * m, 0)).save()
    s = AX()
    fn = lib.f('l1c_setup_matrix_transforms', I_, I_, I_, P_, P_)
    if rng.random() < .15:
        bn, bm = int(rng.integers(-2, 1)), m
        if rng.random() < .5:
            bn, bm = n, int(rng.integers(-2, 1))
        need(fn(bn, bm, A.p, C.byref(s)) == 2048, 'matrix set-up n=%d m=%d not rejected' % (bn, bm))
        clean(lib, 'rejected matrix set-up')
        return
    st = fn(n, m, A.p, C.byref(s))
    txt = 'matrix set n=%d m=%d A=%s' % (n, m, A.saved.tolist()[:30])
    need(st == 0, txt + ' status %d' % st)
    need((s.n, s.m, s.p, s.q) == (n, m, m, m), txt + ': dims %r' % ((s.n, s.m, s.p, s.q),))
    Am = A.saved.reshape(n, m)
    f, g, i = (lambda x: Am @ x), (lambda y: Am.T @ y), (lambda x: x)
    history(lib, rng, txt, s, dict(Ax=(m, n, f), Aty=(n, m, g), AtAx=(m, m, lambda x: Am.T @ (Am @ x)), Mx=(m, m, i), Mty=(m, m, i), Wz=(m, m, i), Wtx=(m, m, i), Rx=(m, n, f), Rty=(n, m, g)), [A])
    VOID(s.destroy)()
    clean(lib, txt)


def dct_ops(r, c, one, pix):
    m, n = r * c, len(pix)
    if one:
        M, Mt = (lambda x: sf.idct(x, norm='ortho')), (lambda y: sf.dct(y, norm='ortho'))
    else:
        M = lambda x: sf.idctn(x.reshape(r, c), norm='ortho').ravel()
        Mt = lambda y: sf.dctn(y.reshape(r, c), norm='ortho').ravel()
    E = lambda x: x[pix]

    def Et(y):
        z = np.zeros(m)
        z[pix] = y
        return z
    i = lambda x: x
    return dict(Ax=(m, n, lambda x: E(M(x))), Aty=(n, m, lambda y: Mt(Et(y))), AtAx=(m, m, lambda x: Mt(Et(E(M(x))))), Mx=(m, m, M), Mty=(m, m, Mt), Rx=(m, n, E), Rty=(n, m, Et),
                Wz=(m, m, i), Wtx=(m, m, i))


def rpix(rng, m):
    n = int(rng.integers(1, m + 1))
    p = rng.permutation(m)[:n]
    return np.sort(p) if rng.random() < .6 else p


def run_dct(lib, rng, txt, fn, args, r, c, one, pix, P):
    s = AX()
    st = fn(*args, C.byref(s))
    need(st == 0, txt + ' status %d' % st)
    m = r * c
    need((s.n, s.m, s.p, s.q) == (len(pix), m, m, m), txt + ': dims %r' % ((s.n, s.m, s.p, s.q),))
    need(s.norm_W == 1.0 and not s.data, txt + ': norm or data')
    history(lib, rng, txt, s, dct_ops(r, c, one, pix), [P])
    VOID(s.destroy)()
    clean(lib, txt)


@oracle('C09')
def dct1(lib, rng):
    m = int(rng.integers(1, 20))
    pix = rpix(rng, m)
    P = Arr(pix, np.int32).save()
    fn = lib.f('l1c_dct1_setup', I_, I_, I_, P_, P_)
    run_dct(lib, rng, 'dct1 m=%d pix=%s' % (m, pix.tolist()), fn, (len(pix), m, P.p), m, 1, True, pix, P)


@oracle('C10')
def dct2(lib, rng):
    r, c = int(rng.integers(2, 8)), int(rng.integers(2, 8))
    pix = rpix(rng, r * c)
    P = Arr(pix, np.int32).save()
    fn = lib.f('l1c_dct2_setup', I_, I_, I_, I_, P_, P_)
    run_dct(lib, rng, 'dct2 %dx%d pix=%s' % (r, c, pix.tolist()), fn, (len(pix), r, c, P.p), r, c, False, pix, P)


def bad_args(rng, r, c, pix):
    n = len(pix)
    k = rng.integers(0, 4)
    pix = pix.copy()
    if k == 0:
        n = int(rng.integers(-2, 1))
    elif k == 1:
        r = int(rng.integers(-2, 1))
    elif k == 2:
        c = int(rng.integers(-2, 1))
    else:
        pix[rng.integers(0, n)] = int(rng.choice([-1, -7, r * c, r * c + 3]))
    return n, r, c, pix


def sane(lib, s0, s, txt):
    need(bytes(s) == s0, txt + ': table touched')
    clean(lib, txt)


@oracle('C11')
def setup(lib, rng):
    r, c = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    mode = int(rng.integers(1, 3))
    pix = rpix(rng, r * c)
    fn = lib.f('l1c_setup_dct_transforms', I_, I_, I_, I_, I_, P_, P_)
    if rng.random() < .5:
        n, r2, c2, pix = bad_args(rng, r, c, pix)
        P = Arr(pix, np.int32).save()
        s = AX()
        C.memset(C.byref(s), 0x5a, C.sizeof(s))
        b = bytes(s)
        st = fn(n, r2, c2, mode, P.p, C.byref(s))
        txt = 'setup_dct n=%d %dx%d mode=%d pix=%s' % (n, r2, c2, mode, pix.tolist())
        need(st == 2048, txt + ': status %d, expected invalid argument' % st)
        sane(lib, b, s, txt)
        return
    P = Arr(pix, np.int32).save()
    run_dct(lib, rng, 'setup_dct %dx%d mode=%d pix=%s' % (r, c, mode, pix.tolist()), fn, (len(pix), r, c, mode, P.p), r, c, r == 1 or c == 1 or mode == 1, pix, P)


def diffs(r, c):
    Dy = lambda x: np.vstack([x[1:] - x[:-1], np.zeros((1, c))])
    Dx = lambda x: np.hstack([x[:, 1:] - x[:, :-1], np.zeros((r, 1))])

    def DyT(x):
        z = np.zeros((r, c))
        z[:-1] -= x[:-1]
        z[1:] += x[:-1]
        return z

    def DxT(x):
        z = np.zeros((r, c))
        z[:, :-1] -= x[:, :-1]
        z[:, 1:] += x[:, :-1]
        return z
    return Dy, DyT, Dx, DxT


@oracle('C11', 'C12')
def dcttv(lib, rng):
    av, ah = float(rng.choice([0, 0, .5, 2.0])), float(rng.choice([0, 0, .7, 3.0]))
    tv = av > 0 or ah > 0
    lo = 3 if tv else 1
    r, c = int(rng.integers(lo, 7)), int(rng.integers(lo, 7))
    dm, bp = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    pix = rpix(rng, r * c)
    fn = lib.f('l1c_setup_dctTV_transforms', I_, I_, I_, I_, D_, D_, I_, I_, P_, P_)
    if rng.random() < .3:
        n, r2, c2, a2, h2 = len(pix), r, c, av, ah
        k = rng.integers(0, 7)
        if k < 4:
            n, r2, c2, pix = bad_args(rng, r, c, pix)
        elif k == 4:
            a2 = -1.0
        elif k == 5:
            h2 = -.5
        else:
            a2 = 1.0
            if rng.random() < .5:
                r2 = int(rng.integers(1, 3))
            else:
                c2 = int(rng.integers(1, 3))
            pix = pix % (r2 * c2)
            if rng.random() < .5:
                a2, h2 = 0.0, 1.0
        P = Arr(pix, np.int32).save()
        s = AX()
        C.memset(C.byref(s), 0x5a, C.sizeof(s))
        b = bytes(s)
        st = fn(n, r2, c2, a2, h2, dm, bp, P.p, C.byref(s))
        txt = 'setup_dctTV n=%d %dx%d av=%g ah=%g pix=%s' % (n, r2, c2, a2, h2, pix.tolist())
        need(st == 2048, txt + ': status %d, expected invalid argument' % st)
        sane(lib, b, s, txt)
        return
    P = Arr(pix, np.int32).save()
    s = AX()
    st = fn(len(pix), r, c, av, ah, dm, bp, P.p, C.byref(s))
    txt = 'dctTV %dx%d av=%g ah=%g dct=%d bp=%d pix=%s' % (r, c, av, ah, dm, bp, pix.tolist())
    need(st == 0, txt + ' status %d' % st)
    m = r * c
    n = len(pix)
    V, H = int(av > 0), int(ah > 0)
    Pn = (1 + V + H) * m
    base_ = dct_ops(r, c, r == 1 or c == 1 or dm == 1, pix)
    M, Mt, E, Et = (base_[k][2] for k in ('Mx', 'Mty', 'Rx', 'Rty'))
    Dy, DyT, Dx, DxT = diffs(r, c)

    def W(v):
        y = M(v[:m])
        if V:
            y = y + av * Dy(v[m:2 * m].reshape(r, c)).ravel()
        if H:
            o = (1 + V) * m
            y = y + ah * Dx(v[o:o + m].reshape(r, c)).ravel()
        return y

    def Wt(x):
        return np.concatenate([Mt(x)] + ([av * DyT(x.reshape(r, c)).ravel()] if V else []) + ([ah * DxT(x.reshape(r, c)).ravel()] if H else []))
    i = lambda x: x
    ops = dict(Rx=(m, n, E), Rty=(n, m, Et))
    if bp == 2:
        need((s.n, s.m, s.p, s.q) == (n, Pn, m, m) and s.norm_W == 1, txt + ': dims')
        ops.update(Ax=(Pn, n, lambda v: E(W(v))), Aty=(n, Pn, lambda y: Wt(Et(y))), AtAx=(Pn, Pn, lambda v: Wt(Et(E(W(v))))), Mx=(Pn, m, W), Mty=(m, Pn, Wt), Wz=(m, m, i), Wtx=(m, m, i))
    else:
        need((s.n, s.m, s.p, s.q) == (n, m, Pn, m) and abs(s.norm_W - np.sqrt(1 + 4 * av * av + 4 * ah * ah)) < 1e-9, txt + ': dims')
        ops.update(Ax=(m, n, E), Aty=(n, m, Et), AtAx=(m, m, lambda x: Et(E(x))), Mx=(m, m, i), Mty=(m, m, i), Wz=(Pn, m, W), Wtx=(m, Pn, Wt))
    history(lib, rng, txt, s, ops, [P])
    VOID(s.destroy)()
    clean(lib, txt)
