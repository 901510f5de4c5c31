"""the Matlab/Octave functions on a stand-in interpreter: errors, arguments as the library receives them, outputs, buffers, transform sets"""
from base import *
from o_xfm import rpix
from o_l1qc import OPT, RES
from o_nesta import OPT as NOPT
from o_fault import quiet, bal
import os, subprocess

_mex = {}
FILES = ('l1qc_dct', 'breg_anistropic_TV', 'nesta_dctTV')


def module(lib, which):
    key = (lib.path, which)
    if key in _mex:
        return _mex[key]
    d = os.path.dirname(lib.path)
    so = os.path.join(d, 'mex%d.so' % which)
    src = os.path.join(cfront.REPO, 'interfaces', 'mex')
    p = subprocess.run(['sh', '-c', 'cd "$1" && F="-std=gnu11 -march=x86-64-v3 -O1 -g -fPIC -w -I$1/inc -I$3/mex -I$2/include -I$2/src -I$3 -I$4" && gcc $F -include $3/vc_mex.h -c $4/$5_mex.c -o mx1.o && gcc $F -include $3/vc_mex.h -c $4/l1c_mex_utils.c -o mx2.o && gcc $F -c $3/vc_py.c -o mx3.o && gcc $F -c $3/vc_mex.c -o mx4.o && gcc -shared -o $6 mx1.o mx2.o mx3.o mx4.o $7 -lopenblas -Wl,-rpath,$1',
                        'sh', d, cfront.REPO, HERE, src, FILES[which], so, lib.path], capture_output=True, text=True)
    if p.returncode:
        raise BuildError(p.stderr[:1500])
    s = C.CDLL(so)
    s.vcm_new.restype = s.vcm_get.restype = C.c_void_p
    s.vcm_new.argtypes = [C.c_int, C.c_long, C.c_long, C.c_long]
    s.vcm_data.restype = C.POINTER(D_)
    s.vcm_data.argtypes = s.vcm_free.argtypes = s.vcm_guard.argtypes = s.vcm_fields.argtypes = [C.c_void_p]
    s.vcm_get.argtypes = [C.c_void_p, C.c_char_p]
    s.vcm_set.argtypes = [C.c_void_p, C.c_char_p, C.c_void_p]
    s.vcm_flags.argtypes = [C.c_void_p, C.c_int, C.c_int, C.c_char_p]
    s.vcm_dim.restype = C.c_long
    s.vcm_dim.argtypes = [C.c_void_p, C.c_int]
    s.vcm_call.argtypes = [C.c_int, C.c_void_p, C.c_int, C.c_void_p]
    _mex[key] = s
    return s


class Mx:
    """a Matlab value"""

    def __init__(self, a=None, cls=0, d=2, cplx=0, sparse=0, text=None, fields=None):
        self.a, self.cls, self.d, self.cplx, self.sparse, self.text, self.fields = np.atleast_2d(np.asarray([[0.0]] if a is None else a, dtype=float)), cls, d, cplx, sparse, text, fields

    def make(self, s):
        p = s.vcm_new(self.cls, self.a.shape[0], self.a.shape[1], self.d)
        if self.a.size:
            np.ctypeslib.as_array(s.vcm_data(p), (self.a.size,))[:] = self.a.ravel(order='F')
        s.vcm_flags(p, self.cplx, self.sparse, self.text.encode() if self.text is not None else None)
        for k, v in (self.fields or {}).items():
            s.vcm_set(p, k.encode(), v.make(s))
        self.p = p
        return p

    def intact(self, s):
        if s.vcm_guard(self.p):
            return False
        if self.a.size and not np.array_equal(np.ctypeslib.as_array(s.vcm_data(self.p), (self.a.size,)), self.a.ravel(order='F')):
            return False
        return all(v.intact(s) for v in (self.fields or {}).values())


def spoil(rng, v, kind):
    """a value that is not acceptable for an argument of this kind"""
    k = int(rng.integers(0, 5))
    if kind == 'scalar':
        return [(Mx(v.a, cls=1), 'an int32'), (Mx(np.ones((1, 3))), 'three values'), (Mx(np.ones((0, 1))), 'an empty array'), (Mx(cls=3, text='x'), 'text'), (Mx(np.ones((2, 1))), 'two values')][k]
    if kind == 'vector':
        return [(Mx(v.a, cls=1), 'an int32 array'), (Mx(np.ones((2, 2))), 'a matrix'), (Mx(np.ones((1, 1))), 'a scalar'), (Mx(v.a, sparse=1), 'a sparse array'), (Mx(v.a, cplx=1), 'a complex array')][k]
    if kind == 'image':
        return [(Mx(v.a, cls=1), 'an int32 array'), (Mx(v.a[:2]), 'two rows'), (Mx(v.a[:, :2]), 'two columns'), (Mx(v.a, sparse=1), 'a sparse array'), (Mx(v.a, d=3), 'a 3-D array')][k]
    if kind == 'struct':
        return [(Mx(v.a), 'a number'), (Mx(np.zeros((1, 2)), cls=2, fields=v.fields), 'a struct array')][k % 2]
    if kind == 'mode':
        return [(Mx(cls=3, text=t), 'mode %r' % t) for t in ('synthesys', 'synth', 'analysis of', 'Analysis')][k % 4] if k < 4 else (Mx(1.0), 'a number')
    if kind == 'dct':
        return (Mx(float(rng.choice([0, 3, -1]))), 'dct mode out of range')


L1F = dict(epsilon=.01, mu=10.0, tau=2.5, newton_tol=1e-3, lbtol=1e-3, l1_tol=1e-5, cgtol=1e-8, warm_start_cg=1, verbose=0, newton_max_iter=50, cgmaxiter=200, lbiter=3)
NEF = dict(sigma=.01, verbose=0, mu=1e-5, tol=1e-5, n_continue=5, alpha_v=0.0, alpha_h=0.0, dct_mode=1)
INTS = ('warm_start_cg', 'verbose', 'newton_max_iter', 'cgmaxiter', 'lbiter', 'n_continue', 'dct_mode')


@oracle('C23')
def mexcall(lib, rng):
    which = int(rng.integers(0, 3))
    s = module(lib, which)
    ci = lambda k: C.c_int.in_dll(s, k)
    dbl = lambda q, k: np.ctypeslib.as_array((D_ * 4096).in_dll(s, q))[:k].copy()
    r, c = int(rng.integers(3, 8)), int(rng.integers(3, 8))
    N = r * c
    val = {}
    kinds = []
    if which == 1:
        img = np.round(rng.normal(size=(r, c)) * 8) / 8
        val = dict(mu=float(rng.uniform(1, 9)), tol=float(rng.uniform(.001, .1)), max_iter=int(rng.integers(1, 50)))
        args = [Mx(img)] + [Mx(val[k] + (.4 if k == 'max_iter' and rng.random() < .3 else 0)) for k in ('mu', 'tol', 'max_iter')]
        kinds = ['image', 'scalar', 'scalar', 'scalar']
        data = img.ravel(order='F')
    else:
        for _ in range(50):
            pix = rpix(rng, N)
            if 2 <= len(pix) < N:
                break
        else:
            pix = np.arange(2)
        n = len(pix)
        data = np.round(rng.normal(size=n) * 8) / 8
        val = dict(L1F if which == 0 else NEF)
        for k in val:
            if k in INTS:
                val[k] = int(rng.integers(1, 3)) if k == 'dct_mode' else int(rng.integers(0, 3)) if k == 'verbose' else int(rng.integers(1, 9))
            elif k.startswith('alpha'):
                val[k] = float(rng.choice([0.0, .5, 1.25]))
            else:
                val[k] *= float(rng.uniform(1.1, 3))
        fl = {k: Mx(float(v)) for k, v in val.items()}
        if which == 2:
            val['bp_mode'] = int(rng.integers(1, 3))
            fl['bp_mode'] = Mx(cls=3, text=('analysis', 'synthesis')[val['bp_mode'] - 1])
        shape = (-1, 1) if rng.random() < .5 else (1, -1)
        args = [Mx(float(r)), Mx(float(c)), Mx(data.reshape(shape)), Mx((np.asarray(pix, float) + 1 + (.25 if rng.random() < .2 else 0)).reshape(shape)), Mx(cls=2, fields=fl)]
        kinds = ['scalar', 'scalar', 'vector', 'vector', 'struct']
    nl = 2 if which == 2 or rng.random() < .5 else 1
    bad = None
    k = rng.random()
    if k < .15:
        i = int(rng.integers(0, len(args)))
        args[i], t = spoil(rng, args[i], kinds[i])
        bad = 'argument %d is %s' % (i + 1, t)
    elif k < .2:
        args, bad = args[:-1 - int(rng.integers(0, 2))], 'too few arguments'
    elif k < .24:
        nl, bad = (1 if which == 2 else 0), 'too few outputs'
    elif which != 1 and k < .3:
        q = str(rng.choice(sorted(fl)))
        del fl[q]
        bad = 'field %s is missing' % q
    elif which != 1 and k < .36:
        q = str(rng.choice(sorted(fl)))
        if q == 'bp_mode':
            fl[q], t = spoil(rng, None, 'mode')
        elif q == 'dct_mode' and rng.random() < .5:
            fl[q], t = spoil(rng, None, 'dct')
        else:
            fl[q], t = spoil(rng, fl[q], 'scalar')
        bad = 'field %s is %s' % (q, t)
    elif which != 1 and k < .42:
        a = args[3].a.copy()
        j = int(rng.integers(0, n))
        a.flat[j] = rng.choice([0, N + 1, -3, N + 7])
        args[3], bad = Mx(a), 'index %d at position %d' % (a.flat[j], j)
    elif which != 1 and k < .46:
        args[2], bad = Mx(np.ones((n + 1, 1))), 'lengths differ'
    elif which != 1 and k < .5:
        args[2], args[3], bad = Mx(np.ones((N, 1))), Mx(np.arange(1.0, N + 1).reshape(-1, 1)), 'as many samples as pixels'
    elif which != 1 and k < .53:
        i = int(rng.integers(0, 2))
        args[i], bad = Mx(float(rng.choice([0, -3]))), 'size %d is not positive' % i
    mem = sum(1 << i for i in range(12) if rng.random() < .15) if bad is None and rng.random() < .35 else 0
    want = int(rng.choice([0, 0, 0, 0, 2, 8, 512]))
    txt = '%s(%s) nlhs=%d%s%s%s' % (FILES[which], '%d by %d image, %r' % (r, c, val) if which == 1 else '%d, %d, %d samples at %s, %r' % (r, c, n, list(map(int, pix)), val), nl,
                                    ' [%s]' % bad if bad else '', ' [allocations failing %x]' % mem if mem else '', ' [solver returns %d]' % want if want else '')
    ci('vcp_mode').value = 1
    sol = np.ctypeslib.as_array((D_ * 4096).in_dll(s, 'vcp_sol'))
    sol[:] = rng.normal(size=4096)
    res = RES.in_dll(s, 'vcp_res')
    res.l1, res.total_newton_iter, res.total_cg_iter, res.status = 3.5, 7, 11, 0 if rng.random() < .6 else int(rng.choice([2, 512]))
    outs = []
    for fill in (0xCB, 0x00):
        pr = (C.c_void_p * 8)(*[a.make(s) for a in args])
        pl = (C.c_void_p * 4)(None, None, 0xdead, 0xdead)
        ci('vcp_calls').value = ci('vcp_real').value = 0
        ci('vcp_status').value = want
        lib.reset()
        lib.so.vc_setfill(fill)
        lib.setmask(mem)
        raised = quiet(lambda: s.vcm_call(nl, C.addressof(pl), len(args), C.addressof(pr)))
        hit = bool(mem & ((1 << min(lib.get(0), 60)) - 1))
        lib.setmask()
        lib.so.vc_setfill(0xCB)
        bal(lib, txt)
        need(ci('vcm_badpr').value == 0, txt + ': data read from something that is not a full real array')
        need(ci('vcm_oob').value == 0 and all(a.intact(s) for a in args), txt + ': an argument was modified, or memory next to a value was written')
        calls = ci('vcp_calls').value
        failing = bad or hit or (which == 1 and want and calls) or (which == 2 and (ci('vcp_real').value or (calls and want in (8, 2048, 32))))
        o = None
        if failing:
            need(raised, txt + ': no error is raised')
        elif not (raised and want and calls):
            need(not raised, txt + ': an error is raised')
            need(calls == 1, txt + ': the solver ran %d times' % calls)
            need(pl[0], txt + ': no output')
            sh = {0: (N, 1), 1: (r, c), 2: (r, c)}[which]
            need((s.vcm_dim(pl[0], 0), s.vcm_dim(pl[0], 1), s.vcm_dim(pl[0], 2)) == sh + (0,), txt + ': output of size %d by %d' % (s.vcm_dim(pl[0], 0), s.vcm_dim(pl[0], 1)))
            o = np.ctypeslib.as_array(s.vcm_data(pl[0]), (N,)).copy()
            if not want:
                need(np.allclose(o, dbl('vcp_img', N), rtol=0, atol=1e-12) if which == 2 else np.array_equal(o, sol[:N]), txt + ': the output is not what the solver computed')
            need(np.array_equal(dbl('vcp_b', data.size), data), txt + ': the solver was given other data')
            ints, ds = list((C.c_int * 16).in_dll(s, 'vcp_ints')), list((D_ * 16).in_dll(s, 'vcp_dbls'))
            if which == 1:
                need(ints[:2] == [c, r], txt + ': the solver was told the (row-major) image is %d by %d' % tuple(ints[:2]))
                need((ds[0], ds[1], ints[2], ints[3]) == (val['mu'], val['tol'], val['max_iter'], 1), txt + ': the solver was given mu, tol, max_iter, max_jac_iter = %r' % ((ds[0], ds[1], ints[2], ints[3]),))
            else:
                need(list((C.c_int * 4096).in_dll(s, 'vcp_pix'))[:n] == list(map(int, pix)), txt + ': the solver was given other sample indices')
                if which == 0:
                    need(ints[:3] == [r, c, n], txt + ': the solver was given sizes %s' % (ints[:3],))
                    O = OPT.in_dll(s, 'vcp_opts')
                    got = {q: getattr(O, {'cgtol': 'cg_tol', 'cgmaxiter': 'cg_maxiter'}.get(q, q)) for q in val}
                    need((O.dct_mode, O.cg_verbose) == (1, 0), txt + ': dct_mode, cg_verbose = %r' % ((O.dct_mode, O.cg_verbose),))
                    if nl == 2:
                        need(pl[1] and s.vcm_dim(pl[1], 2) == 2 and s.vcm_fields(pl[1]) == 4, txt + ': the second output is not the documented struct')
                        for q, v in dict(l1=3.5, total_newton_iter=7, total_cg_iter=11, status=want or res.status).items():
                            f = s.vcm_get(pl[1], q.encode())
                            need(f and s.vcm_data(f)[0] == v, txt + ': field %s is %s, expected %s' % (q, f and s.vcm_data(f)[0], v))
                else:
                    need(ints[:3] == [c, r, n], txt + ': the transforms were told the (row-major) image is %d by %d, %d samples' % tuple(ints[:3]))
                    need(ints[5:7] == [ints[7], n], txt + ': the solver was given sizes %s' % (ints[5:7],))
                    O = NOPT.in_dll(s, 'vcp_nopts')
                    got = {q: getattr(O, q) for q in ('sigma', 'mu', 'tol', 'n_continue', 'verbose')}
                    got.update(alpha_h=ds[0], alpha_v=ds[1], dct_mode=ints[3], bp_mode=ints[4])
                    need(pl[1] and s.vcm_data(pl[1])[0] == want, txt + ': status output')
                for q, v in got.items():
                    need(v == val[q], txt + ': %s reached the library as %r, expected %r' % (q, v, val[q]))
            for i in range(2):
                if pl[i]:
                    s.vcm_free(pl[i])
        outs.append((raised, o))
        for a in args:
            s.vcm_free(a.p)
    (ra, a), (rb, b) = outs                       # FFTW may pick another plan the second time: compare to rounding
    need(ra == rb and (a is None) == (b is None) and (a is None or np.allclose(a, b, rtol=0, atol=1e-9, equal_nan=True)), txt + ': the outcome depends on memory that was never written')
