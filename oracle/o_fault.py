"""every subset of failing allocations / plan creations: status, and what is live afterwards"""
from base import *
from o_xfm import AX, VOID, rpix
import o_nesta, o_l1qc, os, tempfile
libc = C.CDLL(None)


def quiet(f):
    with tempfile.TemporaryFile() as tf:
        o1, o2 = os.dup(1), os.dup(2)
        os.dup2(tf.fileno(), 1), os.dup2(tf.fileno(), 2)
        try:
            r = f()
            libc.fflush(None)
        finally:
            os.dup2(o1, 1), os.dup2(o2, 2)
            os.close(o1), os.close(o2)
    return r


def masks(rng, n=22, p=5):
    k = rng.random()
    if k < .1:
        return 0, 0
    if k < .5:
        m = 1 << int(rng.integers(0, n))
    elif k < .7:
        m = sum(1 << i for i in range(n) if rng.random() < .2)
    elif k < .8:
        a = int(rng.integers(0, n))
        m = ((1 << 60) - 1) >> a << a
    else:
        m = 0
    pl = 0 if rng.random() < .6 and m else sum(1 << i for i in range(p) if rng.random() < .4)
    return m, pl


def hit(mask, cnt):
    return bool(mask & ((1 << min(cnt, 62)) - 1))


def bal(lib, txt):
    need(lib.get(2) == 0, txt + ': something is released that is not live (or twice)')
    need(lib.get(5) == 0, txt + ': a plan is destroyed that is not live (or twice)')
    need(lib.get(1) == 0, txt + ': %d block(s) never released' % lib.get(1))
    need(lib.get(4) == 0, txt + ': %d plan(s) never destroyed' % lib.get(4))
    need(lib.get(3) == 0, txt + ': wrote outside an allocated block')


@oracle('C18')
def setups(lib, rng):
    k = int(rng.integers(0, 4))
    s = AX()
    mm, pm = masks(rng, 10, 3)
    r, c = int(rng.integers(3, 6)), int(rng.integers(3, 6))
    pix = rpix(rng, r * c)
    P = Arr(pix, np.int32).save()
    n = len(pix)
    A = Arr(rng.normal(size=n * c))
    if k == 0:
        txt, call = 'matrix set-up %dx%d' % (n, c), lambda: lib.f('l1c_setup_matrix_transforms', I_, I_, I_, P_, P_)(n, c, A.p, C.byref(s))
    elif k == 1:
        md = int(rng.integers(1, 3))
        txt, call = 'dct set-up %dx%d mode %d' % (r, c, md), lambda: lib.f('l1c_setup_dct_transforms', I_, I_, I_, I_, I_, P_, P_)(n, r, c, md, P.p, C.byref(s))
    elif k == 2:
        txt, call = 'dct1 set-up m=%d' % (r * c), lambda: lib.f('l1c_dct1_setup', I_, I_, I_, P_, P_)(n, r * c, P.p, C.byref(s))
    else:
        av, ah = float(rng.choice([0, 1.0])), float(rng.choice([0, .5]))
        dm, bp = int(rng.integers(1, 3)), int(rng.integers(1, 3))
        txt = 'dctTV set-up %dx%d av=%g ah=%g dct=%d bp=%d' % (r, c, av, ah, dm, bp)
        call = lambda: lib.f('l1c_setup_dctTV_transforms', I_, I_, I_, I_, D_, D_, I_, I_, P_, P_)(n, r, c, av, ah, dm, bp, P.p, C.byref(s))
    lib.reset()
    lib.setmask(mm, pm)
    st = quiet(call)
    fm, fp = hit(mm, lib.get(0)), hit(pm, lib.get(6))
    lib.setmask()
    txt += ' (allocations failing: %x, plans failing: %x)' % (mm, pm)
    if fm or fp:
        ok = {8} if fm and not fp else {32} if fp and not fm else {8, 32}
        need(st != 0, txt + ': reports success although something failed')
        need(st in ok, txt + ': status %d, expected %s' % (st, sorted(ok)))
    else:
        need(st == 0, txt + ': status %d although nothing failed' % st)
        VOID(s.destroy)()
    bal(lib, txt)


@oracle('C18')
def mem(lib, rng):
    n, c = int(rng.integers(1, 7)), int(rng.integers(1, 9))
    mm, _ = masks(rng, 8)
    k = int(rng.integers(0, 4))
    fr, fr2 = lib.f('l1c_free_double', None, P_), lib.f('l1c_free_double_2D', None, I_, P_)
    lib.reset()
    lib.setmask(mm)
    nm = ('l1c_malloc_double', 'l1c_calloc_double', 'l1c_malloc_double_2D', 'l1c_calloc_double_2D')[k]
    p = lib.f(nm, P_, I_)(c) if k < 2 else lib.f(nm, P_, I_, I_)(n, c)
    cnt = lib.get(0)
    f = hit(mm, cnt)
    lib.setmask()
    txt = '%s(%s) (allocations failing: %x)' % (nm, c if k < 2 else (n, c), mm)
    need(bool(p) != f, txt + (': returns a pointer although an allocation failed' if f else ': null although nothing failed'))
    if p:
        rows = [p] if k < 2 else list((P_ * n).from_address(p))
        for q in rows:
            need(q and q % 64 == 0, txt + ': row %r not aligned' % q)
            v = np.ctypeslib.as_array((D_ * c).from_address(q))
            if k % 2:
                need(not v.any(), txt + ': not zeroed')
            v[:] = 3.0
        fr(p) if k < 2 else fr2(n, p)
    bal(lib, txt)
    fr(None)
    fr2(n, None)
    bal(lib, txt)


@oracle('C18')
def solvers(lib, rng):
    k = int(rng.integers(0, 4))
    mm, _ = masks(rng, 24)
    lib.reset()
    if k == 0:
        n, m = int(rng.integers(2, 5)), int(rng.integers(2, 5))
        f, u = Arr(rng.normal(size=n * m)), Arr(rng.normal(size=n * m)).save()
        txt = 'l1c_breg_anistropic_TV(%d,%d)' % (n, m)
        mi = int(rng.integers(0, 3))
        call = lambda: lib.f('l1c_breg_anistropic_TV', I_, I_, I_, P_, P_, D_, D_, I_, I_)(n, m, u.p, f.p, 1.0, .1, mi, 1)
        keep = [u]
    elif k == 1:
        n, m, p = o_nesta.shape(rng)
        o = o_nesta.Ops(rng, n, m, p)
        opts = o_nesta.OPT(mu=.1, tol=.1, sigma=.5, n_continue=2, verbose=0)
        b, x = Arr(rng.normal(size=n)), Arr(m).save()
        txt = 'l1c_nesta n=%d m=%d p=%d' % (n, m, p)
        call = lambda: lib.f('l1c_nesta', I_, I_, P_, I_, P_, AX, o_nesta.OPT)(m, x.p, n, b.p, o.t, opts)
        keep = [x]
    elif k == 2:
        m = int(rng.integers(1, 6))
        n = int(rng.integers(1, m + 1))
        o = o_l1qc.Ops(rng, n, m)
        x = Arr(rng.normal(size=m) + .1).save()
        v = rng.normal(size=n)
        b = Arr(o.A @ x.v - v / np.linalg.norm(v) * .4)
        p = o_l1qc.OPT(epsilon=.5 if rng.random() < .8 else .1, mu=10.0, lbtol=.1, tau=1.0, lbiter=1, newton_tol=.1, newton_max_iter=2, cg_tol=1e-3, cg_maxiter=20)
        txt = 'l1c_l1qc_newton n=%d m=%d' % (n, m)
        inf = p.epsilon < .4
        def call():
            st = lib.f('l1c_l1qc_newton', o_l1qc.RES, I_, P_, I_, P_, o_l1qc.OPT, AX)(m, x.p, n, b.p, p, o.t).status
            return 0 if inf and st == 2 else st
        keep = [x]
    else:
        class F(C.Structure):
            _fields_ = [('f_vals', P_)]
        fn = lib.f('_l1c_new_fmean_fifo', o_nesta.layout('struct l1c_fmean_fifo'))
        txt = '_l1c_new_fmean_fifo()'
        out = []

        def call():
            out.append(fn())
            return 0 if out[0].f_vals else 8
        keep = []
    lib.reset()
    lib.setmask(mm)
    st = quiet(call)
    f = hit(mm, lib.get(0))
    lib.setmask()
    txt += ' (allocations failing: %x)' % mm
    if f:
        need(st == 8, txt + ': status %d, expected out of memory' % st)
        need(all(a.same() and a.ok() for a in keep), txt + ': output touched')
    else:
        need(st == 0, txt + ': status %d although nothing failed' % st)
        if k == 3:
            lib.so.vc_free(C.c_void_p(out[0].f_vals))
    bal(lib, txt)
