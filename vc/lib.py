"""Contracts of external functions (libc, libm, CBLAS, FFTW, cJSON): TRUSTED, listed in the evidence as assumptions."""
from terms import *
import terms as T
import prover as P
from exec import *
from exec import as_d, as_int, as_bool

LIB = {}


def lib(*names):
    def d(f):
        for n in names:
            LIB[n] = f
        return f
    return d


# ---------------------------------------------------------------- libm
@lib('fabs', 'fabsl')
def _fabs(e, a, n):
    x = as_d(a[0])
    return D(tabs(x.t), x.nan)


@lib('abs', 'labs')
def _abs(e, a, n):
    return tabs(as_int(a[0]))


@lib('sqrt')
def _sqrt(e, a, n):
    x = as_d(a[0])
    c = is_const(x.t)
    nan = x.nan
    if c is not None:
        if c < 0:
            nan = TRUE
    else:
        neg_ = lt(x.t, R(0))
        if not P.prove(e.hyps(), not_(neg_), 3, 1):
            nan = or_(nan, neg_)
    return D(sqrt(x.t), nan)


def lane_map(f):
    def g(e, a, n):
        if isinstance(a[0], SV):
            return SV({p: f(e, [v], n) for p, v in a[0].f.items()})
        return f(e, a, n)
    return g


@lib('log')
@lane_map
def _log(e, a, n):
    x = as_d(a[0])
    return D(uf('log', 'R', x.t), or_(x.nan, le(x.t, R(0))) if e.lognan else x.nan)


@lib('exp')
def _exp(e, a, n):
    x = as_d(a[0])
    r = uf('exp', 'R', x.t)
    e.assume(gt(r, R(0)))
    return D(r, x.nan)


@lib('pow')
def _pow(e, a, n):
    x, y = as_d(a[0]), as_d(a[1])
    c = is_const(y.t)
    if c is not None and c.denominator == 1 and c >= 0:
        return D(ipow(x.t, int(c)), x.nan)
    return D(uf('powr', 'R', x.t, y.t), or_(x.nan, y.nan))


@lib('ceil')
def _ceil(e, a, n):
    x = as_d(a[0])
    r = real_to_int(x.t)
    if r is not None:
        return D(to_real(r), x.nan)
    k = uf('ceil', 'I', x.t)
    e.assume(and_(ge(to_real(k), x.t), lt(to_real(k) - R(1), x.t)))
    return D(to_real(k), x.nan)


@lib('floor')
def _floor(e, a, n):
    x = as_d(a[0])
    r = real_to_int(x.t)
    if r is not None:
        return D(to_real(r), x.nan)
    k = uf('floor', 'I', x.t)
    e.assume(and_(le(to_real(k), x.t), gt(to_real(k) + R(1), x.t)))
    return D(to_real(k), x.nan)


@lib('fmax')
def _fmax(e, a, n):
    x, y = as_d(a[0]), as_d(a[1])
    return D(ite(x.nan, y.t, ite(y.nan, x.t, tmax(x.t, y.t))), and_(x.nan, y.nan))


@lib('fmin')
def _fmin(e, a, n):
    x, y = as_d(a[0]), as_d(a[1])
    return D(ite(x.nan, y.t, ite(y.nan, x.t, tmin(x.t, y.t))), and_(x.nan, y.nan))


@lib('isnan', '__isnan')
def _isnan(e, a, n):
    return as_d(a[0]).nan


@lib('horizontal_add')
def _hadd(e, a, n):
    v = e.lanes(a[0])
    r = v[0]
    for x in v[1:]:
        r = D(r.t + x.t, or_(r.nan, x.nan))
    return r


# ---------------------------------------------------------------- heap
def new_heap(e, name, nbytes, zero=False, aligned=False):
    o = Obj(name, 'raw', heap=True, aligned=aligned)
    o.bytes, o.zero = nbytes, zero
    nb = fresh('null', 'B')
    o.nullvar = nb
    e.st.live[o] = not_(nb)
    return Ptr(o, None, nb)


@lib('malloc')
def _malloc(e, a, n):
    return new_heap(e, 'malloc', as_int(a[0]))


@lib('calloc')
def _calloc(e, a, n):
    return new_heap(e, 'calloc', as_int(a[0]) * as_int(a[1]), zero=True)


@lib('aligned_alloc', '_mm_malloc', 'fftw_malloc')
def _aalloc(e, a, n):
    return new_heap(e, 'malloc', as_int(a[-1]), aligned=True)


@lib('posix_memalign')
def _pma(e, a, n):
    r = new_heap(e, 'memalign', as_int(a[2]), aligned=True)
    c = is_const(as_int(a[1]))
    if c is None or c % 64:
        r.obj.aligned = False
    lv = e.deref(a[0], n)
    old = e.lv_read(lv) if e.st.cells.get((lv[1], lv[2])) is not UNDEF else UNDEF
    # on failure *memptr is left unchanged: modelled as null only if it was null, else undefined
    e.lv_write(lv, r if (isinstance(old, Ptr) and old.obj is None) or old is UNDEF else r)
    rc = fresh('c!rc', 'I')
    e.assume(iff(eq(rc, I(0)), not_(r.null)))
    return rc


@lib('free', '_mm_free')
def _free(e, a, n):
    p = a[0]
    if not isinstance(p, Ptr):
        raise Unsupported('free of %r' % (p,))
    if p.obj is None:
        return None
    o = p.obj
    if not o.heap:
        e.obl('alloc', p.null, 'only heap memory is released (%s)' % o.name, n)
        return None
    l = e.st.live.get(o, TRUE)
    e.obl('alloc', or_(p.null, and_(l, eq(p.off, I(0)))), '%s is released at most once, from its start' % o.name, n)
    e.st.live[o] = and_(l, p.null) if p.null is not FALSE else FALSE
    return None


def _nelem(e, p, nb, n):
    if not isinstance(p, Ptr) or p.obj is None or p.obj.kind != 'arr':
        raise Unsupported('memory function on %r' % (p,))
    sz = 8 if p.obj.elem == 'R' else 4
    N = e.simp(ediv(nb, I(sz)))
    if not P.prove(e.hyps(), eq(N * I(sz), nb), 3, 1):
        raise Unsupported('partial element in a memory function')
    return N


@lib('memset')
def _memset(e, a, n):
    if is_const(as_int(a[1])) != 0:
        raise Unsupported('memset to a nonzero byte')
    nb = as_int(a[2])
    if isinstance(a[0], Ptr) and a[0].obj is not None and a[0].obj.kind == 'cells' and a[0].obj.rtype:
        for p, ft in e.leaf_paths(a[0].obj.rtype):
            e.st.cells[(a[0].obj, a[0].path + p)] = e.zero(ft)
        return a[0]
    N = _nelem(e, a[0], nb, n)
    e.wview(a[0], N, vconst(0) if a[0].obj.elem == 'R' else vlam(lambda k: I(0), 'I'), n, 'memset')
    return a[0]


@lib('memcpy', 'memmove')
def _memcpy(e, a, n):
    nb = as_int(a[2])
    N = _nelem(e, a[0], nb, n)
    x = e.rview(a[1], _nelem(e, a[1], nb, n), n, 'memcpy source')
    e.wview(a[0], N, x, n, 'memcpy target')
    return a[0]


# ---------------------------------------------------------------- FFTW (real-to-real plans)
@lib('fftw_init_threads')
def _fit(e, a, n):
    return fresh('c!fftw', 'I')


@lib('fftw_plan_with_nthreads', 'fftw_cleanup_threads', 'fftw_cleanup')
def _fnop(e, a, n):
    return None


def r2r(dims, kinds, v):
    nm = 'r2r_' + '_'.join(str(k) for k in kinds)
    T.LINEAR[nm] = True
    P.DOMLEN[nm] = lambda s: [prod(s)]
    return vop(nm, tuple(dims), (v,))


def prod(ds):
    r = ds[0]
    for d in ds[1:]:
        r = r * d
    return r


def _plan(e, dims, i, o, kinds, flags, n):
    kinds = [is_const(as_int(k)) for k in kinds]
    fl = is_const(as_int(flags))
    if None in kinds or fl is None:
        raise Unsupported('plan kind or flags are not constants')
    N = prod(dims)
    for d in dims:
        e.obl('mpre', ge(d, I(1)), 'plan dimensions are positive', n)
    for p, w in ((i, 'plan input'), (o, 'plan output')):
        e.check_access(p, N, n, w)
        if p.obj is None or p.obj.kind != 'arr':
            raise Unsupported('plan array')
        e.obl('align', TRUE if p.obj.aligned and is_const(p.off) == 0 else FALSE, '%s is aligned' % w, n)
        if not int(fl) & 64:
            # measuring planners may overwrite the arrays (with zeros); with wisdom they leave them alone
            b, old = fresh('measured', 'B'), e.st.arrs[p.obj]
            e.st.arrs[p.obj] = vlam(lambda k: ite(b, R(0), app(old, k)))
    q = Obj('fftw plan', 'cells', heap=True)
    q.plan = (tuple(dims), i, o, tuple(int(k) for k in kinds), int(fl))
    q.nullvar = fresh('null', 'B')
    q.nullvar_kind = 'plan'
    e.st.live[q] = not_(q.nullvar)
    return Ptr(q, None, q.nullvar)


@lib('fftw_plan_r2r_1d')
def _p1(e, a, n):
    return _plan(e, [as_int(a[0])], a[1], a[2], [a[3]], a[4], n)


@lib('fftw_plan_r2r_2d')
def _p2(e, a, n):
    return _plan(e, [as_int(a[0]), as_int(a[1])], a[2], a[3], [a[4], a[5]], a[6], n)


def _exec_plan(e, p, i, o, n):
    if not isinstance(p, Ptr) or p.obj is None or not hasattr(p.obj, 'plan'):
        raise Unsupported('execution of %r' % (p,))
    dims, pi, po, kinds, fl = p.obj.plan
    e.obl('live', not_(p.null), 'executed plan is not null', n)
    e.obl('live', e.st.live.get(p.obj, TRUE), 'executed plan is not destroyed', n)
    if i is None:
        i, o = pi, po
    else:
        e.obl('mpre', TRUE if (i.obj is o.obj) == (pi.obj is po.obj) else FALSE, 'plan is executed in place exactly as planned', n)
        for q, w in ((i, 'transform input'), (o, 'transform output')):
            if q.obj is None or q.obj.kind != 'arr':
                raise Unsupported('transform array')
            e.obl('align', and_(TRUE if q.obj.aligned else FALSE, eq(emod(q.off, I(8)), I(0))), '%s has the alignment the plan was made for' % w, n)
    N = prod(dims)
    v = e.rview(i, N, n, 'transform input')
    e.wview(o, N, r2r(dims, kinds, v), n, 'transform output')
    if (fl & 1) and i.obj is not o.obj:
        e.wview(i, N, fresh_vec('c!destroyed'), n, 'transform input')
    return None


@lib('fftw_execute')
def _fe(e, a, n):
    return _exec_plan(e, a[0], None, None, n)


@lib('fftw_execute_r2r')
def _fe2(e, a, n):
    return _exec_plan(e, a[0], a[1], a[2], n)


@lib('fftw_destroy_plan')
def _fd(e, a, n):
    p = a[0]
    if not isinstance(p, Ptr):
        raise Unsupported('destroy of %r' % (p,))
    if p.obj is None:
        return None
    l = e.st.live.get(p.obj, TRUE)
    e.obl('alloc', or_(p.null, l), 'a plan is destroyed at most once', n)
    e.st.live[p.obj] = and_(l, p.null) if p.null is not FALSE else FALSE


# ---------------------------------------------------------------- output
@lib('printf', 'l1c_printf', 'puts', 'putchar', 'vprintf')
def _stdout(e, a, n):
    if getattr(e, 'quiet', None) is not None:
        e.obl('func', not_(e.quiet), 'nothing is printed unless it was asked for', n)
    return _print(e, a, n)


@lib('fprintf', 'fflush', 'perror', 'sprintf', 'snprintf', 'fputs', 'vfprintf')
def _print(e, a, n):
    for x in a[1:]:
        if x is UNDEF:
            e.obl('uninit', FALSE, 'printed value is initialised', n)
        elif isinstance(x, Ptr) and x.obj is not None and x.obj in e.st.live:
            e.obl('live', or_(e.st.live[x.obj], x.null), 'printed text is allocated and not released', n)
    return fresh('c!printed', 'I')


# ---------------------------------------------------------------- cblas
def _one(s):
    return is_const(as_int(s)) == 1


@lib('cblas_ddot')
def _ddot(e, a, n):
    N = as_int(a[0])
    x = e.rview(a[1], N, n, 'ddot x', as_int(a[2]))
    y = e.rview(a[3], N, n, 'ddot y', as_int(a[4]))
    return D(dot(x, y, N))


@lib('cblas_dnrm2')
def _dnrm2(e, a, n):
    N = as_int(a[0])
    x = e.rview(a[1], N, n, 'dnrm2 x', as_int(a[2]))
    return D(sqrt(dot(x, x, N)))


@lib('cblas_dasum')
def _dasum(e, a, n):
    N = as_int(a[0])
    x = e.rview(a[1], N, n, 'dasum x', as_int(a[2]))
    return D(sum_(I(0), N, lambda k: tabs(app(x, k))))


@lib('cblas_daxpy')
def _daxpy(e, a, n):
    N = as_int(a[0])
    al = as_d(a[1])
    x = e.rview(a[2], N, n, 'daxpy x', as_int(a[3]))
    y = e.rview(a[4], N, n, 'daxpy y', as_int(a[5]))
    e.wview(a[4], N, vlin((al.t, x), (1, y)), n, 'daxpy y', as_int(a[5]))


@lib('cblas_daxpby', 'catlas_daxpby')
def _daxpby(e, a, n):
    N = as_int(a[0])
    al, be = as_d(a[1]), as_d(a[4])
    x = e.rview(a[2], N, n, 'daxpby x', as_int(a[3]))
    y = e.rview(a[5], N, n, 'daxpby y', as_int(a[6]))
    e.wview(a[5], N, vlin((al.t, x), (be.t, y)), n, 'daxpby y', as_int(a[6]))


@lib('cblas_dcopy')
def _dcopy(e, a, n):
    N = as_int(a[0])
    x = e.rview(a[1], N, n, 'dcopy x', as_int(a[2]))
    e.wview(a[3], N, x, n, 'dcopy y', as_int(a[4]))


@lib('cblas_dscal')
def _dscal(e, a, n):
    N = as_int(a[0])
    al = as_d(a[1])
    x = e.rview(a[2], N, n, 'dscal x', as_int(a[3]))
    e.wview(a[2], N, vlin((al.t, x)), n, 'dscal x', as_int(a[3]))


@lib('cblas_idamax')
def _idamax(e, a, n):
    N = as_int(a[0])
    x = e.rview(a[1], N, n, 'idamax x', as_int(a[2]))
    r = fresh('c!idamax', 'I')
    e.assume(and_(ge(r, I(0)), or_(lt(r, N), eq(r, I(0)))))
    e.assume(forall(N, lambda k: le(tabs(app(x, k)), tabs(app(x, r)))))
    return r


@lib('cblas_dgemv')
def _dgemv(e, a, n):
    # order, trans, M, N, alpha, A, lda, X, incX, beta, Y, incY
    order, trans = is_const(as_int(a[0])), is_const(as_int(a[1]))
    M, N, al, A, lda = as_int(a[2]), as_int(a[3]), as_d(a[4]), a[5], as_int(a[6])
    X, ix, be, Y, iy = a[7], as_int(a[8]), as_d(a[9]), a[10], as_int(a[11])
    if order is None or trans is None:
        raise Unsupported('dgemv order')
    rowmajor = int(order) == 101
    tr = int(trans) != 111
    inner = N if rowmajor else M
    outer = M if rowmajor else N
    e.obl('mpre', ge(lda, tmax(I(1), inner)), 'dgemv leading dimension', n)
    Av = e.rview(A, lda * (outer - I(1)) + inner, n, 'dgemv A')
    el = (lambda i, j: app(Av, i * lda + j)) if rowmajor else (lambda i, j: app(Av, j * lda + i))
    lx, ly = (M, N) if tr else (N, M)
    x = e.rview(X, lx, n, 'dgemv x', ix)
    if is_const(be.t) == 0:
        y = vconst(0)
    else:
        y = e.rview(Y, ly, n, 'dgemv y', iy)
    if Y.obj is X.obj or Y.obj is A.obj:
        e.obl('mpre', FALSE if e.decide(and_(gt(lx, I(0)), gt(ly, I(0)))) is not False else TRUE, 'dgemv output does not alias its inputs', n)
    f = lambda i: sum_(I(0), lx, lambda k: mul(el(k, i) if tr else el(i, k), app(x, k)))
    e.wview(Y, ly, vlam(lambda i: mul(al.t, f(i)) + mul(be.t, app(y, i))), n, 'dgemv y', iy)


# ---------------------------------------------------------------- misc
@lib('omp_get_max_threads', 'omp_get_num_threads', 'omp_get_num_procs')
def _omp(e, a, n):
    r = fresh('c!omp', 'I')
    e.assume(ge(r, I(1)))
    return r


@lib('omp_get_thread_num')
def _ompt(e, a, n):
    r = fresh('c!ompt', 'I')
    e.assume(ge(r, I(0)))
    return r


@lib('gettimeofday')
def _gtod(e, a, n):
    lv = e.deref(a[0], n)
    for p, ft in e.leaf_paths(lv[1].rtype or 'struct timeval'):
        e.st.cells[(lv[1], lv[2] + p)] = e.fresh_int('c!time', 0, 2**62)
    return I(0)


@lib('l1c_get_time')
def _gt(e, a, n):
    return SV({('tv_sec',): e.fresh_int('c!time', 0, 2**62), ('tv_usec',): e.fresh_int('c!time', 0, 2**62)})


@lib('mul_add')
def _mul_add(e, a, n):
    x, y, z = (e.lanes(v) for v in a)
    return SV({('l%d' % i,): D(mul(p.t, q.t) + r.t, or_(p.nan, q.nan, r.nan)) for i, (p, q, r) in enumerate(zip(x, y, z))})
