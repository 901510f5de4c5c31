"""Contracts of the transform sets (matrix_transforms.c, dct1.c, dct2.c, dct_transforms.c, dct_tv_transforms.c).

A set-up function is run on the real body; from the state it leaves on success every operator of the table it filled is run
through the stored function pointer and compared with the specified linear map, in a state closed under every earlier
history of operator calls (module arrays written by operators hold arbitrary values, except for what every operator
provably preserves); finally destroy is run and everything acquired must be released."""
from contract import *
from loops import is_hv
import terms as T

OOM, INIT, INVAL, INCONS = 8, 32, 2048, 8192
FIELDS_I = ('n', 'q', 'm', 'p')


def lin(name):
    T.LINEAR[name] = True


def pixset(e, n, m, distinct=True):
    """index array argument with distinct in-range entries, and its inverse"""
    o = e.new_arr('pix_idx', n, 'I')
    pv = e.st.arrs[o]
    iv = vatom('pixinv', 'I')
    e.assume(forall(n, lambda t: and_(ge(app(pv, t), I(0)), lt(app(pv, t), m), eq(app(iv, app(pv, t)), t))))
    loops.INVERSE[pv] = iv
    inp = lambda k: and_(ge(app(iv, k), I(0)), lt(app(iv, k), n), eq(app(pv, app(iv, k)), k))
    return Ptr(o), pv, iv, inp


def axstruct(e):
    o = Obj('ax_funs', 'cells', rtype='l1c_AxFuns')
    for p, _ in e.leaf_paths('l1c_AxFuns'):
        e.st.cells[(o, p)] = UNDEF
    return Ptr(o)


class XfmSet(Contract):
    """subclass responsibilities: mk(e)->args and self.c ; spec(c) -> dict(field -> (Lin, Lout, fn(x)->vec)) ; dims(c) ; fails"""
    statuses = (OOM,)

    def __init__(self, name, file, mk, ops, dims, norm, key=None, extra=(), split=None):
        self.mk, self.ops, self.dims, self.norm = mk, ops, dims, norm
        self.extra_files = extra
        Contract.__init__(self, name, file, [], None, scenarios=[self.setup] if split is None else [(lambda e, s=s: self.setup(e, s)) for s in split], key=key)

    def setup(self, e, s=None):
        self.c = {}
        return self.mk(e, self.c) if s is None else self.mk(e, self.c, s)

    def newres(self, s0, st):
        return [o for o in st.live if o not in s0.live]

    def check(self, e, s0, args, outs):
        got = set()
        for oc in outs:
            for zero in (True, False):
                e.st = oc.st.copy()
                v = as_int(oc.val)
                cond = eq(v, I(0)) if zero else ne(v, I(0))
                d = e.decide(cond)
                if d is False:
                    continue
                if d is not True:
                    e.assume(cond, 'c')
                if P.sat(e.hyps(), 1) == 'unsat':
                    continue
                got.add(zero)
                (self.ok if zero else self.failed)(e, s0, e.st, v)
        if True not in got:
            e.obl('func', FALSE, 'set-up can succeed')

    def nulls(self, s0, st):
        arr, plan = [], []
        for o in self.newres(s0, st):
            nv = getattr(o, 'nullvar', None)
            if nv is None:
                continue
            (plan if getattr(o, 'nullvar_kind', '') == 'plan' else arr).append(nv)
        return arr, plan

    def failed(self, e, s0, st, v):
        arr, plan = self.nulls(s0, st)
        e.obl('alloc', or_(*(arr + plan)), 'set-up fails only when memory or a plan could not be obtained')
        e.obl('alloc', eq(v, ite(or_(*arr), I(OOM), I(INIT))) if plan else eq(v, I(OOM)), 'failure status tells memory exhaustion from plan failure')
        for o in self.newres(s0, st):
            e.obl('alloc', not_(st.live[o]), '%s is released when set-up fails' % o.name)

    def ok(self, e, s0, st, v):
        c = self.c
        ax = c['ax'].obj
        arr, plan = self.nulls(s0, st)
        e.obl('alloc', not_(or_(*(arr + plan))), 'set-up succeeds only when all memory and plans were obtained')
        cell = lambda f: st.cells.get((ax, (f,)), UNDEF)
        for f, t in self.dims(c).items():
            e.obl('func', eq_val(cell(f), t), 'table entry %s is as specified' % f)
        nw = cell('norm_W')
        e.obl('func', eq_val(nw, D(self.norm(c))), 'table entry norm_W is as specified')
        d = cell('data')
        e.obl('func', and_(d.null) if isinstance(d, Ptr) else FALSE, 'table entry data is null')
        ops = self.ops(c)
        fns = {}
        for f in list(ops) + ['destroy']:
            fv = cell(f)
            okf = isinstance(fv, FnV) and fv.key is not None
            e.obl('func', not_(fv.null) if okf else FALSE, 'table entry %s is set to a function' % f)
            if okf:
                fns[f] = fv
        base = e.st
        head = self.closure(e, base, fns, ops)
        for f, (Li, Lo, fn) in ops.items():
            if f not in fns:
                continue
            self.run_op(e, head, f, fns[f], Li, Lo, fn)
        if 'destroy' in fns:
            e.st = head.copy()
            e.call_fn(fns['destroy'].key, [], None)
            for o in self.newres(s0, base):
                e.obl('alloc', not_(e.st.live.get(o, TRUE)), 'destroy releases %s' % o.name)

    def io(self, e, f, Li, Lo):
        x = e.new_arr('x_' + f, Li, aligned=True)
        y = e.new_arr('y_' + f, Lo, aligned=True, init=(f == 'Rty' or (f == 'Aty' and getattr(self, 'aty_is_rty', False))))
        return x, y

    def closure(self, e, base, fns, ops):
        """state closed under operator histories"""
        c = self.c
        user = c.get('user', ())
        mods, cmods = {}, {}
        weak = set()

        def mk():
            h = base.copy()
            for o in mods:
                b0, fv = base.arrs[o], mods[o]
                if o in weak or 'inp' not in c:
                    h.arrs[o] = fv
                else:
                    h.arrs[o] = vlam(lambda k: ite(c['inp'](k), app(fv, k), app(b0, k)))
            for cc, v in cmods.items():
                h.cells[cc] = v
            return h
        for rnd in range(8):
            head = mk()
            again = False
            for f, (Li, Lo, fn) in ops.items():
                if f not in fns:
                    continue
                e.st = head.copy()
                e.mute += 1
                try:
                    x, y = self.io(e, f, Li, Lo)
                    pre = e.st
                    pre_a, pre_c = dict(pre.arrs), dict(pre.cells)
                    e.call_fn(fns[f].key, [Ptr(x), Ptr(y)], None)
                    st = e.st
                finally:
                    e.mute -= 1
                for o in base.arrs:
                    if o in user or st.arrs.get(o) is pre_a[o]:
                        continue
                    if o not in mods or (is_hv(st.arrs[o]) and not is_hv(mods[o])):
                        mods[o] = fresh_vec(('hv.' if is_hv(st.arrs[o]) else '') + 'past.' + o.name, o.elem)
                        again = True
                    elif o not in weak and 'inp' in c:
                        a, b0 = st.arrs[o], base.arrs[o]
                        if not P.prove(st.hyps(), forall(o.len, lambda k: or_(c['inp'](k), eq(app(a, k), app(b0, k)))), 10, 2):
                            weak.add(o)
                            again = True
                for cc in base.cells:
                    v, v0 = st.cells.get(cc), pre_c[cc]
                    if v is v0 or v == v0:
                        continue
                    if cc in cmods:
                        continue
                    if isinstance(v0, D):
                        cmods[cc] = D(fresh('past.' + cc[0].name, 'R'))
                    elif isinstance(v0, Term):
                        cmods[cc] = fresh('past.' + cc[0].name, 'I')
                    else:
                        raise Unsupported('operator %s changes module variable %s' % (f, cc[0].name))
                    again = True
            if not again:
                break
        else:
            raise Unsupported('no closed description of operator histories')
        if cmods:
            e.notes.append('module scalars written by operators: %s' % [cc[0].name for cc in cmods])
        self.kept = sorted(o.name for o in mods if o not in weak)
        e.notes.append('kept by every operator outside the samples: %s' % self.kept)
        return mk()

    def run_op(self, e, head, f, fv, Li, Lo, fn):
        e.st = head.copy()
        x, y = self.io(e, f, Li, Lo)
        s1 = e.st.copy()
        xv = s1.arrs[x]
        old, e.fname = e.fname, '%s.%s' % (self.name, f)
        e.call_fn(fv.key, [Ptr(x), Ptr(y)], None)
        st = e.st
        spec = fn(xv)
        out = st.arrs[y]
        e.obl('func', forall(Lo, lambda k: eq(app(out, k), app(spec, k))), '%s output is the specified linear map of its input, whatever was called before' % f)
        e.obl('func', TRUE if st.arrs[x] is xv else forall(Li, lambda k: eq(app(st.arrs[x], k), app(xv, k))), '%s leaves its input as it was' % f)
        if y in st.init:
            iv = st.init[y]
            e.obl('uninit', forall(Lo, lambda k: eq(app(iv, k), I(1))), '%s sets every output element' % f)
        for o in self.c.get('user', ()):
            a, b = st.arrs[o], s1.arrs[o]
            if a is not b:
                e.obl('func', forall(o.len, lambda k: eq(app(a, k), app(b, k))), '%s leaves %s unchanged' % (f, o.name))
        for cc in s1.cells:
            if cc[0] is self.c['ax'].obj and st.cells.get(cc) is not s1.cells[cc]:
                e.obl('func', eq_val(st.cells[cc], s1.cells[cc]), '%s leaves the table unchanged' % f)
        for o, l in s1.live.items():
            l2 = st.live.get(o, TRUE)
            if l2 is not l:
                e.obl('alloc', iff(l, l2), '%s releases nothing (%s)' % (f, o.name))
        for o, l in st.live.items():
            if o not in s1.live:
                e.obl('alloc', not_(l), '%s releases what it allocates (%s)' % (f, o.name))
        e.fname = old


# ---------------------------------------------------------------- dense matrix
def mk_mat(e, c):
    n, m = e.fresh_int('n', 1, 2**31 - 1), e.fresh_int('m', 1, 2**31 - 1)
    e.assume(le(n * m, I(2**31 - 1)))
    A = e.new_arr('A', n * m, aligned=True)
    c.update(n=n, m=m, A=A, Av=e.st.arrs[A], user=(A,), ax=axstruct(e))
    return [n, m, Ptr(A), c['ax']]


def ops_mat(c):
    n, m, A = c['n'], c['m'], c['Av']
    fwd = lambda x: vlam(lambda i: sum_(I(0), m, lambda j: mul(app(A, i * m + j), app(x, j))))
    adj = lambda y: vlam(lambda j: sum_(I(0), n, lambda i: mul(app(A, i * m + j), app(y, i))))
    idn = lambda x: x
    return dict(Ax=(m, n, fwd), Aty=(n, m, adj), AtAx=(m, m, lambda x: adj(fwd(x))), Mx=(m, m, idn), Mty=(m, m, idn), Wz=(m, m, idn), Wtx=(m, m, idn),
                Rx=(m, n, fwd), Rty=(n, m, adj))


XfmSet('l1c_setup_matrix_transforms', 'matrix_transforms.c', mk_mat, ops_mat, lambda c: dict(n=c['n'], m=c['m'], p=c['m'], q=c['m']), lambda c: R(0))


# ---------------------------------------------------------------- DCT
def mk_dct1(e, c):
    n, m = e.fresh_int('n', 1, 2**31 - 1), e.fresh_int('m', 1, 2**31 - 1)
    pix, pv, iv, inp = pixset(e, n, m)
    c.update(n=n, m=m, pv=pv, iv=iv, inp=inp, user=(pix.obj,), ax=axstruct(e))
    return [n, m, pix, c['ax']]


def mk_dct2(e, c):
    n, r, q = e.fresh_int('n', 1, 2**31 - 1), e.fresh_int('mrow', 2, 2**31 - 1), e.fresh_int('mcol', 2, 2**31 - 1)
    e.assume(le(r * q, I(2**31 - 1)))
    pix, pv, iv, inp = pixset(e, n, r * q)
    c.update(n=n, r=r, q=q, m=r * q, pv=pv, iv=iv, inp=inp, user=(pix.obj,), ax=axstruct(e))
    return [n, r, q, pix, c['ax']]


def samp_ops(c, M, Mt):
    n, m = c['n'], c['m']
    E = lambda x: vlam(lambda i: app(x, app(c['pv'], i)))
    Et = lambda y: vlam(lambda k: ite(c['inp'](k), app(y, app(c['iv'], k)), R(0)))
    idn = lambda x: x
    return dict(Ax=(m, n, lambda x: E(M(x))), Aty=(n, m, lambda y: Mt(Et(y))), AtAx=(m, m, lambda x: Mt(Et(E(M(x))))), Mx=(m, m, M), Mty=(m, m, Mt),
                Rx=(m, n, E), Rty=(n, m, Et), Wz=(m, m, idn), Wtx=(m, m, idn))


def ops_dct1(c):
    m = c['m']
    s = sqrt(div(R(1), mul(R(2), to_real(m))))
    r2 = sqrt(R(2))
    M = lambda x: vlin((s, L.r2r((m,), (4,), vlam(lambda k: ite(eq(k, I(0)), mul(r2, app(x, k)), app(x, k))))))
    def Mt(y):
        z = L.r2r((m,), (5,), y)
        return vlam(lambda k: mul(s, ite(eq(k, I(0)), div(app(z, k), r2), app(z, k))))
    return samp_ops(c, M, Mt)


def ops_dct2(c):
    r, q = c['r'], c['q']
    s = sqrt(div(R(1), mul(R(4), mul(to_real(r), to_real(q)))))
    r2 = sqrt(R(2))
    w = lambda k: ite(eq(k, I(0)), R(2), ite(or_(lt(k, q), eq(emod(k, q), I(0))), r2, R(1)))
    M = lambda x: vlin((s, L.r2r((r, q), (4, 4), vlam(lambda k: mul(w(k), app(x, k))))))
    def Mt(y):
        z = L.r2r((r, q), (5, 5), y)
        return vlam(lambda k: mul(s, div(app(z, k), w(k))))
    return samp_ops(c, M, Mt)



alldims = lambda c: dict(n=c['n'], m=c['m'], p=c['m'], q=c['m'])
LOG = Obj('setup log', 'cells')      # ghost: which set-up was called, with what


def ghost_op(e, ax, res, f, Li, Lo, spec):
    def op(e, args, node):
        x, y = args
        e.obl('live', e.st.live[res], 'operator %s is used only while its transform set is live' % f, node)
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj is y.obj and x.obj is not None:
            e.obl('mpre', or_(le(x.off + Li, y.off), le(y.off + Lo, x.off)), 'operator input and output do not overlap', node)
        for q, w in ((x, 'input'), (y, 'output')):
            if isinstance(q, Ptr) and q.obj is not None and not (q.obj.aligned and is_const(q.off) == 0):
                e.obl('align', and_(TRUE if q.obj.aligned else FALSE, eq(emod(q.off, I(8)), I(0))), 'operator %s %s is aligned' % (f, w), node)
        v = e.rview(x, Li, node, 'operator input')
        if f == 'Rty':
            e.check_init(y, Lo, node)
        e.wview(y, Lo, spec(v), node, 'operator output')
    op.opname, op.res, op.dims = f, res, (Li, Lo)
    return op


def ghost_set(e, axp, n, m, ok, name, dims, ops, norm):
    """the table a successful set-up leaves, as its contract describes it"""
    res = Obj(name, 'cells', heap=True)
    e.st.live[res] = ok
    ax = axp.obj

    def put(f, v):
        e.st.cells[(ax, (f,))] = v if ok is TRUE else Maybe(ok, v)

    def destroy(e, args, node):
        e.obl('alloc', e.st.live[res], 'the transform set is destroyed at most once', node)
        e.st.live[res] = FALSE
    for f, v in dims.items():
        put(f, v)
    put('norm_W', D(norm))
    put('data', NULL)
    for f, (Li, Lo, sp) in ops.items():
        put(f, FnV(ghost_op(e, ax, res, f, Li, Lo, sp)))
    put('destroy', FnV(destroy))
    return res


def ab(name, *sargs, dom=None):
    """abstract linear operator"""
    lin(name)
    P.DOMLEN[name] = lambda s: [s[dom if dom is not None else 0]]
    return lambda v: vop(name, sargs, (v,))


def abstract_ops(n, m):
    M, Mt, Rx, Rt = ab('Mx', m), ab('Mty', m), ab('Rx', m, n), ab('Rty', n, m)
    idn = lambda x: x
    return dict(Ax=(m, n, lambda x: Rx(M(x))), Aty=(n, m, lambda y: Mt(Rt(y))), AtAx=(m, m, lambda x: Mt(Rt(Rx(M(x))))), Mx=(m, m, M), Mty=(m, m, Mt),
                Wz=(m, m, idn), Wtx=(m, m, idn), Rx=(m, n, Rx), Rty=(n, m, Rt))


def setup_status(e, allowed):
    v = fresh('c!status', 'I')
    e.assume(or_(*[eq(v, I(s)) for s in (0,) + allowed]))
    return v


class DctSet(XfmSet):
    which = 0

    def apply(self, e, args, node):
        n, dims, pix, axp = as_int(args[0]), [as_int(a) for a in args[1:-2]], args[-2], args[-1]
        m = L.prod(dims)
        for d in [n] + dims:
            e.obl('mpre', ge(d, I(1)), '%s: dimensions are positive' % self.name, node)
        pv = e.rview(pix, n, node, 'sample indices')
        e.obl('mpre', forall(n, lambda j: and_(ge(app(pv, j), I(0)), lt(app(pv, j), m))), '%s: sample indices are in range' % self.name, node)
        v = setup_status(e, (OOM, INIT))
        e.st.cells[(LOG, ('which',))] = I(self.which)
        for i, a in enumerate([n] + dims + [pix, axp, v]):
            e.st.cells[(LOG, ('a%d' % i,))] = a
        ghost_set(e, axp, n, m, eq(v, I(0)), 'DCT set', dict(n=n, m=m, p=m, q=m), abstract_ops(n, m), R(1))
        return v


DctSet('l1c_dct1_setup', 'dct1.c', mk_dct1, ops_dct1, alldims, lambda c: R(1)).which = 1
c = DctSet('l1c_dct2_setup', 'dct2.c', mk_dct2, ops_dct2, alldims, lambda c: R(1))
c.which, c.cost = 2, 20


# ---------------------------------------------------------------- set-up validation and dispatch
class SetupDct(Contract):
    def __init__(self):
        self.extra_files = ('dct1.c', 'dct2.c')
        Contract.__init__(self, 'l1c_setup_dct_transforms', 'dct_transforms.c', [], None, scenarios=[self.setup])

    def setup(self, e):
        n, r, q = (e.fresh_int(x, -2**31, 2**31 - 1) for x in ('n', 'mrow', 'mcol'))
        mode = e.fresh_int('dct_mode', 1, 2)
        pix = Ptr(e.new_arr('pix_idx', tmax(n, I(0)), 'I'))
        ax = axstruct(e)
        e.st.cells[(LOG, ('which',))] = I(0)
        self.c = dict(n=n, r=r, q=q, mode=mode, pix=pix, ax=ax)
        return [n, r, q, mode, pix, ax]

    def check(self, e, s0, args, outs):
        c = self.c
        n, r, q = c['n'], c['r'], c['q']
        pv = s0.arrs[c['pix'].obj]
        pos = and_(gt(n, I(0)), gt(r, I(0)), gt(q, I(0)), le(r * q, I(2**31 - 1)))
        rng = forall(n, lambda j: and_(ge(app(pv, j), I(0)), lt(app(pv, j), r * q)))
        one = or_(eq(r, I(1)), eq(q, I(1)), eq(c['mode'], I(1)))
        for oc in outs:
            v = as_int(oc.val)
            w = oc.st.cells[(LOG, ('which',))]
            for k in (0, 1, 2):
                e.st = oc.st.copy()
                e.assume(eq(w, I(k)), 'c')
                if P.sat(e.hyps(), 1) == 'unsat':
                    continue
                st = e.st
                if k == 0:
                    e.obl('func', eq(v, I(INVAL)), 'without building a transform the status is the invalid-argument one')
                    b = e.st
                    e.st = b.copy()
                    e.assume(pos)
                    e.assume(rng)
                    e.obl('func', FALSE, 'valid arguments are not rejected')
                    e.st = b
                    for p, _ in e.leaf_paths('l1c_AxFuns'):
                        if st.cells[(c['ax'].obj, p)] is not UNDEF:
                            e.obl('func', FALSE, 'the table is not touched when arguments are rejected')
                else:
                    e.obl('func', pos, 'dimensions that are not positive, or whose product does not fit an int, are rejected before any transform is built')
                    e.obl('func', rng, 'out-of-range sample indices are rejected before any transform is built')
                    e.obl('func', one if k == 1 else not_(one), 'the 1-D set is built exactly when a side is 1 or 1-D mode was asked for')
                    want = [n, r * q, c['pix'], c['ax']] if k == 1 else [n, r, q, c['pix'], c['ax']]
                    for i, x in enumerate(want):
                        e.obl('func', eq_val(st.cells[(LOG, ('a%d' % i,))], x), 'the %d-D set is built for the given dimensions and samples' % k)
                    e.obl('func', eq(v, st.cells[(LOG, ('a%d' % len(want),))]), 'the status of the built set is returned')
                    for cc, x in st.cells.items():
                        if cc[0] is c['ax'].obj and x is UNDEF:
                            e.obl('func', FALSE, 'table entry %s is set' % cc[1])
            e.st = oc.st.copy()
            e.obl('func', or_(*[eq(w, I(k)) for k in (0, 1, 2)]), 'one set is built at most')
            a = oc.st.arrs[c['pix'].obj]
            e.obl('func', TRUE if a is pv else forall(n, lambda k: eq(app(a, k), app(pv, k))), 'pix_idx is left unchanged')

    def apply(self, e, args, node):
        n, r, q, mode, pix, axp = args
        n, r, q, mode = as_int(n), as_int(r), as_int(q), as_int(mode)
        v = fresh('c!status', 'I')
        pv = e.rview(pix, n, node, 'sample indices')
        bad = fresh('badidx', 'I')
        oor = lambda j: or_(lt(app(pv, j), I(0)), ge(app(pv, j), r * q))
        pos = and_(gt(n, I(0)), gt(r, I(0)), gt(q, I(0)), le(r * q, I(2**31 - 1)))
        e.assume(or_(*[eq(v, I(s)) for s in (0, OOM, INIT, INVAL)]))
        e.assume(or_(ne(v, I(INVAL)), not_(pos), and_(ge(bad, I(0)), lt(bad, n), oor(bad))))
        e.assume(or_(eq(v, I(INVAL)), pos))
        e.assume(or_(eq(v, I(INVAL)), forall(n, lambda j: not_(oor(j)))))
        e.st.cells[(LOG, ('which',))] = I(3)
        for i, a in enumerate([n, r, q, mode, pix, axp, v]):
            e.st.cells[(LOG, ('a%d' % i,))] = a
        m = r * q
        self.res = ghost_set(e, axp, n, m, eq(v, I(0)), 'DCT set', dict(n=n, m=m, p=m, q=m), abstract_ops(n, m), R(1))
        return v


SetupDct()


class MatVal(Contract):
    """argument validation of the dense-matrix set"""
    def __init__(self):
        Contract.__init__(self, 'l1c_setup_matrix_transforms', 'matrix_transforms.c', [], None, scenarios=[self.setup], key='l1c_setup_matrix_transforms.reject')

    def setup(self, e):
        n, m = (e.fresh_int(x, -2**31, 2**31 - 1) for x in ('n', 'm'))
        e.assume(or_(le(n, I(0)), le(m, I(0))))
        self.ax = axstruct(e)
        A = e.new_arr('A', e.fresh_int('la', 0), aligned=True)
        return [n, m, Ptr(A), self.ax]

    def check(self, e, s0, args, outs):
        for oc in outs:
            e.st = oc.st.copy()
            e.obl('func', eq(as_int(oc.val), I(INVAL)), 'non-positive dimensions give the invalid-argument status')
            for p, _ in e.leaf_paths('l1c_AxFuns'):
                if oc.st.cells[(self.ax.obj, p)] is not UNDEF:
                    e.obl('func', FALSE, 'the table is not touched when arguments are rejected')
            for o, l in oc.st.live.items():
                e.obl('alloc', not_(l), 'nothing is retained when arguments are rejected')


MatVal()


# ---------------------------------------------------------------- DCT + TV dictionary
from s_tv import tvop

SYN, ANA = 2, 1


def mk_tv(e, c, s):
    mode, V, H = s
    lo = 3 if V or H else 1
    n, r, q = e.fresh_int('n', 1, 2**31 - 1), e.fresh_int('mrow', lo, 2**31 - 1), e.fresh_int('mcol', lo, 2**31 - 1)
    m = r * q
    e.assume(le(mul(I(1 + V + H), m), I(2**31 - 1)))
    av, ah = var('alp_v', 'R'), var('alp_h', 'R')
    e.assume(gt(av, R(0)) if V else eq(av, R(0)))
    e.assume(gt(ah, R(0)) if H else eq(ah, R(0)))
    pix = Ptr(e.new_arr('pix_idx', n, 'I'))
    pv = e.st.arrs[pix.obj]
    e.assume(forall(n, lambda j: and_(ge(app(pv, j), I(0)), lt(app(pv, j), m))))
    dm = e.fresh_int('dct_mode', 1, 2)
    e.st.cells[(LOG, ('which',))] = I(0)
    c.update(n=n, r=r, q=q, m=m, av=av, ah=ah, V=V, H=H, mode=mode, P=mul(I(1 + V + H), m), user=(pix.obj,), ax=axstruct(e), dm=dm, pix=pix)
    return [n, r, q, D(av if V else R(0)), D(ah if H else R(0)), dm, I(mode), pix, c['ax']]


def ops_tv(c):
    n, m, r, q, Pn = c['n'], c['m'], c['r'], c['q'], c['P']
    M, Mt, Rx, Rt = ab('Mx', m), ab('Mty', m), ab('Rx', m, n), ab('Rty', n, m)
    idn = lambda x: x
    sh = lambda v, o: vlam(lambda k: app(v, k + o))

    def W(v):
        t = [(1, M(v))]
        if c['V']:
            t.append((1, tvop('Dy', r, q, c['av'], sh(v, m))))
        if c['H']:
            t.append((1, tvop('Dx', r, q, c['ah'], sh(v, mul(I(1 + c['V']), m)))))
        return vlin(*t)

    def Wt(x):
        bl = [Mt(x)] + ([tvop('DyT', r, q, c['av'], x)] if c['V'] else []) + ([tvop('DxT', r, q, c['ah'], x)] if c['H'] else [])

        def el(k):
            b = app(bl[-1], k - mul(I(len(bl) - 1), m))
            for i in range(len(bl) - 2, -1, -1):
                b = ite(lt(k, mul(I(i + 1), m)), app(bl[i], k - mul(I(i), m)), b)
            return b
        return vlam(el)
    d = dict(Rx=(m, n, Rx), Rty=(n, m, Rt))
    if c['mode'] == SYN:
        d.update(Ax=(Pn, n, lambda v: Rx(W(v))), Aty=(n, Pn, lambda y: Wt(Rt(y))), AtAx=(Pn, Pn, lambda v: Wt(Rt(Rx(W(v))))), Mx=(Pn, m, W), Mty=(m, Pn, Wt), Wz=(m, m, idn), Wtx=(m, m, idn))
    else:
        d.update(Ax=(m, n, Rx), Aty=(n, m, Rt), AtAx=(m, m, lambda x: Rt(Rx(x))), Mx=(m, m, idn), Mty=(m, m, idn), Wz=(Pn, m, W), Wtx=(m, Pn, Wt))
    return d


class TvSet(XfmSet):
    def setup(self, e, s=None):
        a = XfmSet.setup(self, e, s)
        self.aty_is_rty = self.c['mode'] == ANA
        return a

    def io(self, e, f, Li, Lo):
        x, y = XfmSet.io(self, e, f, Li, Lo)
        if f == 'AtAx' and self.aty_is_rty:
            e.st.init.pop(y, None)
        return x, y

    def nulls(self, s0, st):
        return [o.nullvar for o in self.newres(s0, st) if getattr(o, 'nullvar', None) is not None], []

    def failed(self, e, s0, st, v):
        arr, _ = self.nulls(s0, st)
        dv = st.cells.get((LOG, ('a6',)))
        called = is_const(st.cells[(LOG, ('which',))]) == 3
        e.obl('alloc', or_(*(arr + ([ne(dv, I(0))] if called else []))), 'set-up fails only when memory or the DCT set could not be obtained')
        e.obl('alloc', or_(and_(or_(*arr), eq(v, I(OOM))), eq(v, dv) if called else FALSE), 'failure status is that of what failed')
        for o in self.newres(s0, st):
            e.obl('alloc', not_(st.live[o]), '%s is released when set-up fails' % o.name)

    def ok(self, e, s0, st, v):
        c = self.c
        want = [c['n'], c['r'], c['q'], c['dm'], c['pix']]
        e.obl('func', eq(st.cells[(LOG, ('which',))], I(3)), 'the DCT set is built')
        for i, x in enumerate(want):
            e.obl('func', eq_val(st.cells.get((LOG, ('a%d' % i,)), UNDEF), x), 'the DCT set is built for the given dimensions, mode and samples')
        XfmSet.ok(self, e, s0, st, v)


tvdims = lambda c: dict(n=c['n'], q=c['m'], m=c['P'] if c['mode'] == SYN else c['m'], p=c['m'] if c['mode'] == SYN else c['P'])
tvnorm = lambda c: R(1) if c['mode'] == SYN else sqrt(R(1) + mul(R(4), mul(c['av'], c['av'])) + mul(R(4), mul(c['ah'], c['ah'])))
for mode in (SYN, ANA):
    for V in (0, 1):
        for H in (0, 1):
            c = TvSet('l1c_setup_dctTV_transforms', 'dct_tv_transforms.c', mk_tv, ops_tv, tvdims, tvnorm, key='l1c_setup_dctTV_transforms.%s%s%s' % ('syn' if mode == SYN else 'ana', '.v' if V else '', '.h' if H else ''), split=[(mode, V, H)])
TVK = ['l1c_setup_dctTV_transforms.%s%s%s' % (a, v, h) for a in ('syn', 'ana') for v in ('', '.v') for h in ('', '.h')]


class TvVal(Contract):
    def __init__(self):
        self.extra_files = ('dct_transforms.c',)
        Contract.__init__(self, 'l1c_setup_dctTV_transforms', 'dct_tv_transforms.c', [], None, scenarios=[lambda e, k=k: self.setup(e, k) for k in range(4)], key='l1c_setup_dctTV_transforms.valid')

    def setup(self, e, k):
        n, r, q = (e.fresh_int(x, -2**31, 2**31 - 1) for x in ('n', 'mrow', 'mcol'))
        av, ah = var('alp_v', 'R'), var('alp_h', 'R')
        e.assume(gt(av, R(0)) if k & 1 else le(av, R(0)))
        e.assume(gt(ah, R(0)) if k & 2 else le(ah, R(0)))
        dm, bp = e.fresh_int('dct_mode', 1, 2), e.fresh_int('bp_mode', 1, 2)
        pix = Ptr(e.new_arr('pix_idx', tmax(n, I(0)), 'I'))
        ax = axstruct(e)
        e.st.cells[(LOG, ('which',))] = I(0)
        self.c = dict(n=n, r=r, q=q, av=av, ah=ah, pix=pix, ax=ax)
        return [n, r, q, D(av), D(ah), dm, bp, pix, ax]

    def check(self, e, s0, args, outs):
        c = self.c
        n, r, q, av, ah = (c[x] for x in ('n', 'r', 'q', 'av', 'ah'))
        pv = s0.arrs[c['pix'].obj]
        k3 = I(1) + ite(gt(av, R(0)), I(1), I(0)) + ite(gt(ah, R(0)), I(1), I(0))
        okd = and_(gt(n, I(0)), gt(r, I(0)), gt(q, I(0)), le(k3 * (r * q), I(2**31 - 1)), ge(av, R(0)), ge(ah, R(0)), or_(and_(eq(av, R(0)), eq(ah, R(0))), and_(gt(r, I(2)), gt(q, I(2)))))
        rng = forall(n, lambda j: and_(ge(app(pv, j), I(0)), lt(app(pv, j), r * q)))
        for oc in outs:
            v = as_int(oc.val)
            w = oc.st.cells[(LOG, ('which',))]
            touched = [cc for cc, x in oc.st.cells.items() if cc[0] is c['ax'].obj and x is not UNDEF]
            e.st = oc.st.copy()
            a = oc.st.arrs[c['pix'].obj]
            e.obl('func', TRUE if a is pv else forall(n, lambda k: eq(app(a, k), app(pv, k))), 'pix_idx is left unchanged')
            if touched:
                e.obl('func', okd, 'bad dimensions or weights are rejected before the table is touched')
                e.obl('func', rng, 'out-of-range sample indices are rejected before the table is touched')
                e.obl('func', ne(v, I(INVAL)), 'valid arguments do not give the invalid-argument status')
                continue
            for k in (0, 3):
                e.st = oc.st.copy()
                e.assume(eq(w, I(k)), 'c')
                if P.sat(e.hyps(), 1) == 'unsat':
                    continue
                if k == 0:
                    b = e.st
                    e.st = b.copy()
                    e.assume(okd)
                    e.assume(rng)
                    arr = [o.nullvar for o in oc.st.live if getattr(o, 'nullvar', None) is not None and o not in s0.live]
                    e.obl('func', or_(*arr), 'valid arguments are not rejected')
                    e.st = b.copy()
                    e.assume(not_(okd))
                    e.obl('func', eq(v, I(INVAL)), 'bad dimensions or weights give the invalid-argument status')
                    e.st = b
                    e.obl('func', or_(eq(v, I(INVAL)), eq(v, I(OOM))), 'rejection status')
                else:
                    e.obl('func', okd, 'bad dimensions or weights are rejected before any transform is built')
                    e.obl('func', rng, 'out-of-range sample indices are rejected before any transform is built')


TvVal()
