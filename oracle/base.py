"""Replay side: builds the current /repo sources into a scratch shared library (allocator test doubles included) and
offers guarded arrays.  Used only to turn a failed obligation into a concrete failing input, and as the labelled
bounded stand-in where a function left the verifier's reach."""
import ctypes as C, os, subprocess, sys, glob
import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'vc'))
import cfront

SRC = ['l1qc_newton.c', 'l1c_math.c', 'check_pthreads.c', 'cgsolve.c', 'json_utils.c', 'TV.c', 'bregman.c', 'l1qc_dct.c', 'linesearch.c',
       'l1c_logging.c', 'l1c_memory.c', 'matrix_transforms.c', 'dct_transforms.c', 'dct1.c', 'dct2.c', 'dct_tv_transforms.c', 'nesta.c']


class BuildError(Exception):
    pass


def build(d, extra=(), opt='-O2', alloc=True, hooks=(), clang=False):
    """compile the library in directory d, return path of the .so"""
    repo = cfront.REPO
    inc = os.path.join(d, 'inc')
    os.makedirs(inc, exist_ok=True)
    with open(os.path.join(inc, 'config.h'), 'w') as f:
        f.write('#pragma once\n' + cfront.CONFIG_H)
    if clang:
        with open(os.path.join(inc, 'omp.h'), 'w') as f:
            f.write(cfront.OMP_H)
    jobs = []
    objs = []
    cs = sorted(set(glob.glob(repo + '/src/*.c')))
    CC, CXX, OMP = ('clang', 'clang++', []) if clang else ('gcc', 'g++', ['-fopenmp'])
    base = ['-march=x86-64-v3', opt, '-g', '-fPIC', '-w'] + OMP + [ '-fno-common'] + ['-I', inc, '-I', repo + '/include', '-I', repo + '/src', '-I', HERE]
    san = [x for x in extra if x.startswith('-fsanitize')]
    al = ['-include', os.path.join(HERE, 'vc_alloc.h')] if alloc else []
    for c in cs:
        o = os.path.join(d, os.path.basename(c) + '.o')
        jobs.append((c, subprocess.Popen([CC, '-std=gnu11'] + base + al + (['-include', os.path.join(HERE, 'vc_onecall.h')] if alloc and os.path.basename(c) == 'l1qc_dct.c' else []) + list(extra) + ['-c', c, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        objs.append(o)
    for c in sorted(glob.glob(repo + '/src/vcl/*.cpp')):
        o = os.path.join(d, os.path.basename(c) + '.o')
        jobs.append((c, subprocess.Popen([CXX, '-std=gnu++14'] + base + list(extra) + ['-c', c, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        objs.append(o)
    for h in list(hooks) + ([os.path.join(HERE, 'vc_onecall.c')] if alloc else []):
        o = os.path.join(d, os.path.basename(h) + '.o')
        jobs.append((h, subprocess.Popen([CC, '-std=gnu11'] + base + ['-c', h, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        objs.append(o)
    if alloc:
        o = os.path.join(d, 'vc_alloc.o')
        jobs.append(('vc_alloc.c', subprocess.Popen([CC, '-O1', '-fPIC', '-w'] + [x for x in san if 'address' in x] + ['-I', HERE, '-c', os.path.join(HERE, 'vc_alloc.c'), '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        objs.append(o)
    for c, p in jobs:
        out = p.communicate()[0]
        if p.returncode:
            raise BuildError('%s: %s' % (c, out.decode(errors='replace')[:1500]))
    so = os.path.join(d, 'libl1c_vc.so')
    p = subprocess.run([CXX, '-shared'] + OMP + ['-o', so] + objs + list(extra) + (['-lgomp'] if clang else []) + ['-lfftw3_omp', '-lfftw3', '-lopenblas', '-lcjson', '-lpthread', '-lm'], capture_output=True)
    if p.returncode:
        raise BuildError(p.stderr.decode(errors='replace')[:1500])
    return so


CANARY = -7.31415926e+77
PAD = 64


_asan = None


def sanitised():
    global _asan, _unasan
    _unasan = C.CDLL(None).__asan_unpoison_memory_region
    _asan = C.CDLL(None).__asan_poison_memory_region


class Arr:
    """64-byte aligned double array with canary margins"""
    def __init__(self, n_or_data, dtype=np.float64):
        if np.isscalar(n_or_data):
            n, data = int(n_or_data), None
        else:
            data = np.asarray(n_or_data, dtype=dtype).ravel()
            n = data.size
        self.n = n
        it = np.dtype(dtype).itemsize
        raw = np.zeros((n + 2 * PAD) * it + 128, dtype=np.uint8)
        off = (-raw.ctypes.data) % 64
        self.raw = raw
        self.buf = raw[off:off + (n + 2 * PAD) * it].view(dtype)
        self.can = CANARY if dtype == np.float64 else -1234567
        self.buf[:] = self.can
        self.v = self.buf[PAD:PAD + n]
        if data is not None:
            self.v[:] = data
        else:
            self.v[:] = np.nan if dtype == np.float64 else -999
        self.saved = None
        if _asan:
            it = self.buf.itemsize
            a = self.buf.ctypes.data
            _asan(C.c_void_p(a), C.c_size_t(PAD * it))
            e = a + (PAD + n) * it
            _asan(C.c_void_p(e), C.c_size_t(PAD * it))

    def __del__(self):
        if _asan:
            _unasan(C.c_void_p(self.raw.ctypes.data), C.c_size_t(self.raw.nbytes))

    @property
    def p(self):
        return C.c_void_p(self.v.ctypes.data if self.n else self.buf.ctypes.data + PAD * self.buf.itemsize)

    def ok(self):
        return bool((self.buf[:PAD] == self.can).all() and (self.buf[PAD + self.n:] == self.can).all())

    def save(self):
        self.saved = self.v.copy()
        return self

    def same(self):
        return bool(np.array_equal(self.v, self.saved, equal_nan=True))


def close(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    sc = max(1.0, float(np.max(np.abs(b[np.isfinite(b)]))) if np.isfinite(b).any() else 1.0)
    with np.errstate(all='ignore'):
        both_nan = np.isnan(a) & np.isnan(b)
        inf = (a == b)
        return bool((both_nan | inf | (np.abs(a - b) <= rtol * sc + atol * (sc if sc < 1 else 1))).all())


def rvec(rng, n, kind=None):
    kind = kind if kind is not None else rng.integers(0, 6)
    if kind == 0:
        return rng.normal(size=n)
    if kind == 1:
        return rng.normal(size=n) * 10.0 ** rng.integers(-4, 5)
    if kind == 2:
        return rng.integers(-3, 4, size=n).astype(float)
    if kind == 3:
        x = np.zeros(n)
        if n:
            x[rng.integers(0, n)] = 1
        return x
    if kind == 4:
        return rng.uniform(-2, 2, size=n) + rng.integers(-1, 2)
    x = rng.normal(size=n)
    x[rng.random(n) < .5] = 0
    return x


def rsize(rng, lo=0, hi=40, big=700):
    r = rng.random()
    if r < .4:
        return int(rng.integers(lo, min(hi, lo + 9) + 1))
    if r < .9:
        return int(rng.integers(lo, hi + 1))
    return int(rng.integers(lo, big + 1))


class Lib:
    def __init__(self, so):
        self.path = so
        self.so = C.CDLL(so)

    def f(self, name, res, *args):
        fn = getattr(self.so, name)
        fn.restype = res
        fn.argtypes = list(args)
        return fn

    def reset(self):
        self.so.vc_reset()

    def setfail(self, at=-1, frm=-1, plan=-1):
        self.so.vc_set(C.c_long(at), C.c_long(frm), C.c_long(plan))
        self.so.vc_masks(C.c_ulonglong(0), C.c_ulonglong(0))

    def setmask(self, mem=0, plan=0):
        self.setfail()
        self.so.vc_masks(C.c_ulonglong(mem), C.c_ulonglong(plan))

    def get(self, w):
        g = self.so.vc_get
        g.restype = C.c_long
        return g(C.c_int(w))


I_, D_, P_ = C.c_int, C.c_double, C.c_void_p


class Fail(Exception):
    pass


def need(c, msg):
    if not c:
        raise Fail(msg)


ORACLES = {}      # property -> list of case functions run(lib, rng) raising Fail


def oracle(*props):
    def d(f):
        for p in props:
            ORACLES.setdefault(p, []).append(f)
        return f
    return d

_units = []
_lay = {}


def layout(name):
    """ctypes structure of a C struct as declared in the current headers"""
    if name in _lay:
        return _lay[name]
    if not _units:
        for f in ('l1qc_newton.c', 'nesta.c', 'bregman.c'):
            _units.append(cfront.load('src/' + f))
    fs = None
    for u in _units:
        t = name
        for _ in range(4):
            if t in u.records:
                fs = u.records[t]
                break
            t = cfront.clean_type(u.typedefs.get(t, t))
        if fs is not None:
            break
    if fs is None:
        raise Fail_build('struct %s not found' % name)
    out = []
    for f, t in fs:
        t = cfront.clean_type(t)
        if '*' in t:
            c = P_
        elif t == 'double':
            c = D_
        elif t in ('int', 'unsigned int', 'l1c_int', 'unsigned') or t.startswith('enum '):
            c = I_
        elif t.endswith(']'):
            import re as _re
            m = _re.match(r'(.*)\[(\d+)\]', t)
            c = {'double': D_, 'int': I_}[m.group(1).strip()] * int(m.group(2))
        else:
            try:
                c = layout(t)
            except Fail_build:
                c = I_
        out.append((f, c))
    _lay[name] = type(name.replace(' ', '_'), (C.Structure,), dict(_fields_=out))
    return _lay[name]


class Fail_build(Exception):
    pass


def mkstruct(name, **kw):
    s = layout(name)()
    for k, v in kw.items():
        setattr(s, k, v)
    return s
