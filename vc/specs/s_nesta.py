"""Contracts of nesta.c."""
from contract import *
from sim import Sim
import terms as T

N_ = 'nesta.c'
OOM, INVAL, INCONS = 8, 2048, 8192
NM = 10
for nm in ('nA', 'nAt', 'nW', 'nWt'):
    T.LINEAR[nm] = True
    P.DOMLEN[nm] = lambda s: [s[0]]
oA = lambda m, n, v: vop('nA', (m, n), (v,))
oAt = lambda m, n, v: vop('nAt', (n, m), (v,))
oW = lambda m, p, v: vop('nW', (p, m), (v,))
oWt = lambda m, p, v: vop('nWt', (m, p), (v,))


def rw_AAt(t):
    """A A' = I, used only where a lemma switches it on"""
    if T.UNFOLD.get('AAt=I') and t.args[0] == 'nA' and t.args[2][0].kind == 'vop' and t.args[2][0].args[0] == 'nAt':
        return t.args[2][0].args[2][0]
    return None


T.REWRITE.append(rw_AAt)


def opfn(Li, Lo, f, what):
    def g(e, args, node):
        x, y = args
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj is not None and x.obj is y.obj:
            e.obl('mpre', FALSE, 'operator %s: input and output are distinct' % what, node)
        v = e.rview(x, Li, node, '%s input' % what)
        e.rview(y, Lo, node, '%s output (must be initialised)' % what)
        e.wview(y, Lo, f(v), node, '%s output' % what)
    return FnV(g)


def table(n, m, p):
    return dict(Ax=opfn(m, n, lambda v: oA(m, n, v), 'A'), Aty=opfn(n, m, lambda v: oAt(m, n, v), "A'"),
                Wz=opfn(p, m, lambda v: oW(m, p, v), 'W'), Wtx=opfn(m, p, lambda v: oWt(m, p, v), "W'"))


# ---------------------------------------------------------------- opaque operators and their definitions
def uvec(m, p, mu, x):
    w = oWt(m, p, x)
    return vlam(lambda k: div(app(w, k), tmax(mu, tabs(app(w, k)))))


def huber(mu, w):
    return ite(ge(mu, tabs(w)), div(mul(w, w), scale(mu, 2)), tabs(w) - scale(mu, Fraction(1, 2)))


def fx_def(m, p, mu, x):
    w = oWt(m, p, x)
    return sum_(I(0), p, lambda k: huber(mu, app(w, k)))


fx_op = lambda m, p, mu, x: uf('nesta.f', 'R', m, p, mu, x)
grad_op = lambda m, p, mu, x: vop('nesta.grad', (m, p, mu), (x,))
GDEFS['nesta.grad'] = lambda v, k: app(oW(v.args[1][0], v.args[1][1], uvec(*v.args[1], v.args[2][0])), k)


def proj_def(m, n, Lmu, sg, xx, g, b, Atb):
    q = vlin((1, xx), (neg(inv(Lmu)), g))
    Aq = oA(m, n, q)
    d = vlin((1, Aq), (-1, b))
    lam = tmax(R(0), mul(Lmu, div(sqrt(dot(d, d, n)), sg) - R(1)))
    a1 = div(lam, Lmu + lam)
    return vlin((1, q), (mul(div(lam, Lmu), R(1) - a1), Atb), (neg(a1), oAt(m, n, Aq))), q, Aq, d, lam, a1


def proj_op(m, n, Lmu, sg, xx, g, b, Atb):
    return vop('nesta.proj', (m, n, Lmu, sg), (xx, g, b, Atb))


GDEFS['nesta.proj'] = lambda v, k: app(proj_def(*v.args[1], *v.args[2])[0], k)
P.DOMLEN['nesta.proj'] = lambda s: [s[0], s[0], s[1], s[0]]
P.DOMLEN['nesta.grad'] = lambda s: [s[0]]


# ---------------------------------------------------------------- the problem record
def prob(e, init=True):
    n, m, p = (e.fresh_int(x, 1, 2**31 - 1) for x in 'nmp')
    e.assume(and_(le(n, tmax(m, p)), le(m, p)))
    o = Obj('NP', 'cells', rtype='l1c_NestaProb')
    for pth, ft in e.leaf_paths('l1c_NestaProb'):
        e.st.cells[(o, pth)] = UNDEF
    put = lambda f, v: e.st.cells.__setitem__((o, (f,) if isinstance(f, str) else f), v)
    put('n', n), put('m', m), put('p', p)
    c = dict(n=n, m=m, p=p, o=o)
    mx = tmax(m, p)
    for f in ('xo', 'xk', 'yk', 'zk', 'Atb', 'gradf', 'gradf_sum'):
        c[f] = e.new_arr(f, m, aligned=True)
        put(f, Ptr(c[f]))
    for f in ('dwork1', 'dwork2'):
        c[f] = e.new_arr(f, mx, aligned=True)
        put(f, Ptr(c[f]))
    if init:
        c['b'] = e.new_arr('b', n, aligned=True)
        put('b', Ptr(c['b']))
        for f in ('sigma', 'mu', 'tol', 'mu_j', 'tol_j', 'L', 'fx'):
            c[f] = var(f, 'R')
            put(f, D(c[f]))
        put('n_continue', e.fresh_int('n_continue', 1, 2**31 - 2))
        put('flags', e.fresh_int('flags', 0, 2**32 - 1))
        e.assume(and_(gt(c['sigma'], R(0)), gt(c['mu_j'], R(0)), gt(c['L'], R(0)), gt(c['mu'], R(0))))
        for f, v in table(n, m, p).items():
            put(('ax_funs', f), v)
    return Ptr(o), c


def field(e, np_, f, node=None):
    v = e.st.cells.get((np_.obj, np_.path + ((f,) if isinstance(f, str) else f)), UNDEF)
    if v is UNDEF:
        e.obl('uninit', FALSE, 'field %s is set before it is used' % (f,), node)
        raise Unsupported('field %s is not set' % (f,))
    return e.use(v, np_.obj, node)


def wf(e, np_, node, who, b=True):
    n, m, p = dims(e, np_)
    wellformed(e, [(f, field(e, np_, f, node), m) for f in ('xo', 'xk', 'yk', 'zk', 'Atb', 'gradf', 'gradf_sum')] + [(f, field(e, np_, f, node), tmax(m, p)) for f in ('dwork1', 'dwork2')]
               + ([('b', field(e, np_, 'b', node), n)] if b else []), node, who)


class NPContract(Contract):
    """functions on a problem record; effect works on the record's current values"""
    def pre_rec(self, e, np_, node):
        wf(e, np_, node, self.name)
        g = lambda f: as_d(field(e, np_, f, node)).t
        e.obl('pre', and_(*[gt(g(f), R(0)) for f in self.positive]), '%s: %s are positive' % (self.name, ', '.join(self.positive)), node)

    positive = ()

    def apply(self, e, args, node):
        self.pre_rec(e, args[0], node)
        r = self.effect(e, self.named(args), node)
        for f in ('dwork1', 'dwork2'):
            o = field(e, args[0], f).obj
            e.st.arrs[o] = fresh_vec('c!' + o.name)
        return r

    def work_objs(self, args):
        return {o for o in self._s0.arrs if o.name.startswith('dwork')}

    def check(self, e, s0, args, outs):
        self._s0 = s0
        Contract.check(self, e, s0, args, outs)


def dims(e, np_):
    return tuple(as_int(field(e, np_, f)) for f in 'nmp')


class Feval(NPContract):
    positive = ('mu_j',)
    unfold = ('nesta.grad',)

    def __init__(self):
        Contract.__init__(self, 'l1c_nesta_feval', N_, [('NP', 'val', None)], self.eff, scenarios=[self.setup])

    def setup(self, e):
        np_, self.c = prob(e)
        e.st.cells[(np_.obj, ('fx',))] = UNDEF
        return [np_]

    def eff(self, e, A, node):
        NP = A['NP']
        n, m, p = dims(e, NP)
        mu = as_d(field(e, NP, 'mu_j')).t
        x = e.rview(field(e, NP, 'xk'), m, node)
        e.st.cells[(NP.obj, NP.path + ('fx',))] = D(fx_def(m, p, mu, x) if e.mute and node is None else fx_op(m, p, mu, x))
        e.wview(field(e, NP, 'gradf'), m, grad_op(m, p, mu, x), node)


class Project(NPContract):
    positive = ('mu_j', 'L', 'sigma')
    unfold = ('nesta.proj',)

    def __init__(self):
        Contract.__init__(self, 'l1c_nesta_project', N_, [('NP', 'val', None), ('xx', 'arr', None, 'in'), ('g', 'arr', None, 'in'), ('vk', 'arr', None, 'out')], self.eff, scenarios=[self.setup])

    def setup(self, e):
        np_, c = prob(e)
        m = c['m']
        xx, g, vk = (Ptr(e.new_arr(x, m, aligned=True)) for x in ('xx', 'g', 'vk'))
        return [np_, xx, g, vk]

    def apply(self, e, args, node):
        NP, xx, g, vk = args
        b, At = field(e, NP, 'b'), field(e, NP, 'Atb')
        dw = [field(e, NP, f).obj for f in ('dwork1', 'dwork2')]
        for i, a in enumerate((xx, g, vk, b, At)):
            e.obl('mpre', TRUE if a.obj not in dw and (a is vk or a.obj is not vk.obj) else FALSE, 'l1c_nesta_project: arrays do not overlap', node)
            if i < 3:
                e.obl('align', TRUE if a.obj.aligned and is_const(a.off) == 0 else FALSE, 'l1c_nesta_project: arrays are 64-byte aligned', node)
        return NPContract.apply(self, e, args, node)

    def eff(self, e, A, node):
        NP = A['NP']
        n, m, p = dims(e, NP)
        Lmu = div(as_d(field(e, NP, 'L')).t, as_d(field(e, NP, 'mu_j')).t)
        sg = as_d(field(e, NP, 'sigma')).t
        v = [e.rview(q, l, node) for q, l in ((A['xx'], m), (A['g'], m), (field(e, NP, 'b'), n), (field(e, NP, 'Atb'), m))]
        e.wview(A['vk'], m, proj_op(m, n, Lmu, sg, *v), node)


Feval()
Project()


# ---------------------------------------------------------------- set-up
TENTH, NINE = R(Fraction(1, 10)), R(Fraction(9, 10))
NEED = ('Wz', 'Wtx', 'Rx', 'Rty')


def mu0_def(n, m, p, b):
    w = oWt(m, p, oAt(m, n, b))
    return mul(NINE, maxabs(w, p))


def maxabs(w, p):
    return range_ext('maxr', I(1), p, tabs(app(w, I(0))), lambda k: tabs(app(w, k)))


def axtable(e, n, m, p, nullable=False, norm=None):
    """l1c_AxFuns value"""
    f = {}
    ops = table(n, m, p)
    ops['Rx'], ops['Rty'] = ops['Ax'], ops['Aty']
    nv = []
    for pth, ft in e.leaf_paths('l1c_AxFuns'):
        nm = pth[0]
        if nm in ops:
            v = ops[nm]
            if nullable and nm in NEED:
                q = fresh('null_' + nm, 'B')
                nv.append(q)
                v = FnV(v.key, q)
            f[pth] = v
        elif nm in 'nmp' or nm == 'q':
            f[pth] = dict(n=n, m=m, p=p, q=m)[nm]
        elif nm == 'norm_W':
            f[pth] = D(norm)
        elif nm == 'data':
            f[pth] = Ptr(None, None, TRUE)
        else:
            f[pth] = FnV('unused operator ' + nm)
    return SV(f), nv


def nesta_opts(e, lo=1):
    f = {}
    for pth, ft in e.leaf_paths('l1c_NestaOpts'):
        nm = pth[0]
        f[pth] = D(var('opt_' + nm, 'R')) if ft == 'double' else e.fresh_int('opt_' + nm, lo if nm == 'n_continue' else -2**31, 2**31 - 2)
    return f


class Setup(Contract):
    def __init__(self):
        Contract.__init__(self, 'l1c_nesta_setup', N_, [(x, 'val', None) for x in ('NP', 'beta_mu', 'beta_tol', 'b', 'ax_funs', 'opts')], self.eff, scenarios=[lambda e: self.setup(e, False), lambda e: self.setup(e, True)])

    def setup(self, e, incomplete):
        np_, c = prob(e, False)
        n, m, p = c['n'], c['m'], c['p']
        nw = var('norm_W', 'R')
        ax, nv = axtable(e, n, m, p, incomplete, nw)
        self.nv = nv
        if incomplete:
            e.assume(or_(*nv))
        oo = Obj('opts', 'cells', rtype='l1c_NestaOpts')
        op = nesta_opts(e)
        for pth, v in op.items():
            e.st.cells[(oo, pth)] = v
        e.assume(and_(gt(op[('mu',)].t, R(0)), gt(op[('tol',)].t, R(0))))
        bp = []
        for nm in ('beta_mu', 'beta_tol'):
            o = Obj(nm, 'cells', rtype='double')
            e.st.cells[(o, ())] = UNDEF
            bp.append(Ptr(o))
        b = Ptr(e.new_arr('b', n, aligned=True))
        bv_ = e.st.arrs[b.obj]
        w = oWt(m, p, oAt(m, n, bv_))
        e.assume(gt(maxabs(w, p), R(0)))
        return [np_] + bp + [b, ax, Ptr(oo)]

    def complete(self, ax):
        return not_(or_(*[ax.f[(x,)].null for x in NEED]))

    def work_objs(self, args):
        return {o for o in self._s0.arrs if o.name.startswith('dwork')}

    def check(self, e, s0, args, outs):
        self._s0 = s0
        for oc in outs:
            e.st = oc.st.copy()
            ok = self.complete(args[4])
            d = e.decide(ok)
            if d is None:
                raise Unsupported('table check')
            if d:
                Contract.check(self, e, s0, args, [oc])
            else:
                compare(e, s0, oc.st, s0, oc.val, I(INCONS))

    def apply(self, e, args, node):
        A = self.named(args)
        d = e.decide(self.complete(A['ax_funs']))
        if d is False:
            return I(INCONS)
        if d is not True:
            raise Unsupported('set-up with a possibly incomplete table')
        NP = A['NP']
        n, m, p = dims(e, NP)
        op = A['opts']
        g = lambda f: e.st.cells[(op.obj, op.path + (f,))]
        bvv = e.rview(A['b'], n, node)
        w = oWt(m, p, oAt(m, n, bvv))
        e.obl('pre', and_(ge(as_int(g('n_continue')), I(1)), gt(as_d(g('mu')).t, R(0)), gt(as_d(g('tol')).t, R(0)), gt(maxabs(w, p), R(0))), 'l1c_nesta_setup: parameters are positive and some dictionary coefficient of A\'b is nonzero', node)
        wf(e, NP, node, self.name, False)
        r = self.eff(e, A, node)
        for f in ('dwork1', 'dwork2'):
            e.st.arrs[field(e, NP, f).obj] = fresh_vec('c!' + f)
        return r

    def eff(self, e, A, node):
        NP, ax, op = A['NP'], A['ax_funs'], A['opts']
        n, m, p = dims(e, NP)
        g = lambda f: e.st.cells[(op.obj, op.path + (f,))]
        put = lambda f, v: e.st.cells.__setitem__((NP.obj, NP.path + (f if isinstance(f, tuple) else (f,))), v)
        put('b', A['b'])
        put('n_continue', g('n_continue'))
        for q, v in ax.f.items():
            put(('ax_funs',) + q, v)
        for f in ('sigma', 'mu', 'tol'):
            put(f, g(f))
        nw = ax.f[('norm_W',)].t
        put('L', D(mul(nw, nw)))
        bvv = e.rview(A['b'], n, node)
        atb = oAt(m, n, bvv)
        e.wview(field(e, NP, 'Atb'), m, atb, node)
        e.wview(field(e, NP, 'xo'), m, atb, node)
        mu0 = mul(NINE, maxabs(oWt(m, p, atb), p))
        nc = to_real(as_int(g('n_continue')))
        bm = uf('exp', 'R', div(uf('log', 'R', div(as_d(g('mu')).t, mu0)), nc))
        bt = uf('exp', 'R', div(uf('log', 'R', div(as_d(g('tol')).t, TENTH)), nc))
        e.assume(and_(gt(bm, R(0)), gt(bt, R(0))))
        for q, v in (('beta_mu', bm), ('beta_tol', bt)):
            e.st.cells[(A[q].obj, A[q].path)] = D(v)
        put('mu_j', D(mu0))
        put('tol_j', D(TENTH))
        return I(0)


Setup()


# ---------------------------------------------------------------- window of recent values
class Fifo(Contract):
    def __init__(self, name):
        ps = [('fifo', 'val', None)] + ([('fval', 'real')] if 'push' in name else [])
        Contract.__init__(self, name, N_, ps, self.push if 'push' in name else self.mean, scenarios=[self.setup])

    def setup(self, e):
        o = Obj('fifo', 'cells', rtype='struct l1c_fmean_fifo')
        a = e.new_arr('f_vals', I(NM))
        pos = e.fresh_int('pos', 0, NM - 1)
        nt = e.fresh_int('n_total', 0, NM)
        e.st.cells[(o, ('f_vals',))] = Ptr(a)
        e.st.cells[(o, ('n_total',))] = nt
        e.st.cells[(o, ('next',))] = Ptr(a, pos)
        # entries not yet used are zero
        return [Ptr(o)] + ([D(var('fval', 'R'))] if 'push' in self.name else [])

    def rec(self, e, A, node):
        f = A['fifo']
        c = lambda x: e.st.cells[(f.obj, f.path + (x,))]
        fv, nt, nx = c('f_vals'), as_int(c('n_total')), c('next')
        if not (isinstance(fv, Ptr) and isinstance(nx, Ptr) and fv.obj is nx.obj and fv.obj is not None):
            raise Unsupported('window record')
        e.obl('mpre', and_(not_(fv.null), ge(nt, I(0)), le(nt, I(NM)), ge(nx.off - fv.off, I(0)), lt(nx.off - fv.off, I(NM))), '%s: the window record is consistent' % self.name, node)
        return f, fv, nt, nx

    def push(self, e, A, node):
        f, fv, nt, nx = self.rec(e, A, node)
        pos = nx.off - fv.off
        v = e.rview(fv, I(NM), node)
        e.wview(fv, I(NM), vlam(lambda k: ite(eq(k, pos), as_d(A['fval']).t, app(v, k))), node)
        e.st.cells[(f.obj, f.path + ('next',))] = Ptr(nx.obj, ite(eq(pos, I(NM - 1)), fv.off, nx.off + I(1)), nx.null, nx.path)
        e.st.cells[(f.obj, f.path + ('n_total',))] = ite(lt(nt, I(NM)), nt + I(1), nt)

    def mean(self, e, A, node):
        f, fv, nt, nx = self.rec(e, A, node)
        v = e.rview(fv, I(NM), node)
        return D(div(sum_(I(0), I(NM), lambda k: app(v, k)), to_real(nt)), eq(nt, I(0)))


Fifo('_l1c_push_fmeans_fifo')
Fifo('_l1c_mean_fmean_fifo')


class NewFifo(Contract):
    def __init__(self):
        Contract.__init__(self, '_l1c_new_fmean_fifo', N_, [], self.eff, scenarios=[lambda e: []])

    def check(self, e, s0, args, outs):
        for oc in outs:
            st = oc.st
            e.st = st.copy()
            r = oc.val
            fv, nt, nx = (r.f.get((x,), UNDEF) for x in ('f_vals', 'n_total', 'next'))
            if not isinstance(fv, Ptr) or fv.obj is None:
                e.obl('func', FALSE, 'the window is allocated')
                continue
            o = fv.obj
            e.obl('func', eq_val(nt, I(0)), 'a new window is empty')
            e.obl('func', eq_val(fv, nx), 'the next write goes to the start of the window')
            e.obl('alloc', iff(st.live.get(o, FALSE), not_(fv.null)), 'the window is live exactly when not null')
            for q, l in st.live.items():
                if q is not o:
                    e.obl('alloc', not_(l), 'nothing else is retained')
            e.obl('alloc', iff(fv.null, o.nullvar), 'null exactly when memory is exhausted')
            e.st.pc = e.st.pc + (('f', not_(fv.null)),)
            if o.kind == 'raw':
                e.ptr_cast(fv, 'double *', None)
            e.obl('safety', and_(eq(fv.off, I(0)), ge(o.len, I(NM))), 'the window has room for the values')
            v = e.st.arrs[o]
            e.obl('func', forall(I(NM), lambda k: eq(app(v, k), R(0))), 'a new window is all zero')

    def eff(self, e, A, node):
        o = e.new_arr('fifo window', I(NM))
        o.heap = True
        o.nullvar = fresh('null', 'B')
        e.st.arrs[o] = vconst(0)
        e.st.live[o] = not_(o.nullvar)
        p = Ptr(o, None, o.nullvar)
        return SV({('f_vals',): p, ('n_total',): I(0), ('next',): p})


NewFifo()


# ---------------------------------------------------------------- the driver: continuation around the accelerated iteration
LIMIT = 10000


def nrm2sq(d, n):
    return dot(d, d, n)


def resid(m, n, x, b):
    return vlin((1, oA(m, n, x)), (-1, b))


def feas(m, n, x, b, sg):
    return le(nrm2sq(resid(m, n, x, b), n), mul(sg, sg))


def inner_sim(n, m, p, mu, tol, sg, Lc, b, Atb, x0, xo):
    Lmu = div(Lc, mu)

    def parts(t, s):
        x = s['x']
        g = grad_op(m, p, mu, x)
        y = proj_op(m, n, Lmu, sg, x, g, b, Atb)
        tr = to_real(t)
        gs = vlin((1, s['gsum']), (scale(tr + R(1), Fraction(1, 2)), g))
        z = proj_op(m, n, Lmu, sg, xo, gs, b, Atb)
        return y, z, gs, div(R(2), tr + R(3))

    def step(t, s):
        y, z, gs, tau = parts(t, s)
        f = fx_op(m, p, mu, s['x'])
        win = s['win']
        nt = tmin(t, I(NM))
        fbar = div(sum_(I(0), I(NM), lambda k: app(win, k)), to_real(nt))
        pos = emod(t, I(NM))
        stop = and_(ge(t, I(1)), ne(fbar, R(0)), lt(div(tabs(f - fbar), fbar), tol))
        return dict(x=vlin((tau, z), (R(1) - tau, y)), gsum=gs, win=vlam(lambda k: ite(eq(k, pos), f, app(win, k)))), stop

    def lemmas(t, s, nxt):
        y, z, gs, tau = parts(t, s)
        s2 = mul(sg, sg)
        d = vlin((1, oA(m, n, z)), (-1, oA(m, n, y)))
        tt = mul(tau, R(1) - tau)
        hz, hy = s2 - nrm2sq(resid(m, n, z, b), n), s2 - nrm2sq(resid(m, n, y, b), n)
        # feasibility of both projections (lemma_project) times the weights; a sum of squares times tau(1-tau)
        return [ge(mul(tau, hz), R(0)), ge(mul(R(1) - tau, hy), R(0)), ge(mul(tt, nrm2sq(d, n)), R(0))]
    return Sim('nesta.inner', dict(x=m, gsum=m, win=I(NM)), [], dict(x=x0, gsum=vconst(0), win=vconst(0)), step, I(LIMIT), sp=(n, m, p, mu, tol, sg, Lc), vp=(b, Atb, x0, xo),
               forms=[lambda t: emod(t, I(NM)), lambda t: tmin(t, I(NM))],
               inv=lambda t, s: [or_(le(t, I(0)), feas(m, n, s['x'], b, sg))], lemmas=lemmas)


def outer_sim(n, m, p, bm, bt, mu0, sg, Lc, b, Atb, nc):
    def step(t, s):
        mu, tol = mul(s['mu'], bm), mul(s['tol'], bt)
        S = inner_sim(n, m, p, mu, tol, sg, Lc, b, Atb, s['x'], s['xo'])
        x = S.sym('x', S.Kterm())
        return dict(x=x, xo=x, mu=mu, tol=tol), None

    def lemmas(t, s, nxt):
        S = inner_sim(n, m, p, mul(s['mu'], bm), mul(s['tol'], bt), sg, Lc, b, Atb, s['x'], s['xo'])
        K = S.Kterm()
        # the inner iteration performs at least one step (its limit is positive), so its invariant gives feasibility
        return [ge(K, I(1))] + list(S.inv(K, S.state(K)))
    return Sim('nesta.outer', dict(x=m, xo=m), ['mu', 'tol'], dict(x=Atb, xo=Atb, mu=mu0, tol=TENTH), step, nc, sp=(n, m, p, bm, bt, mu0, sg, Lc, nc), vp=(b, Atb),
               inv=lambda t, s: [gt(s['mu'], R(0)), or_(le(t, I(0)), feas(m, n, s['x'], b, sg))], lemmas=lemmas)


class InnerFam:
    """offers the inner recurrence, instantiated with the values current at the loop"""
    def __init__(self, b, Atb, n, m, p):
        self.a = (b, Atb, n, m, p)

    def try_loop(self, loop, s0):
        b, Atb, n, m, p = self.a
        recs = {c[0] for c in s0.cells if c[0].rtype == 'l1c_NestaProb'}
        if len(recs) != 1:
            return None
        o = recs.pop()
        try:
            g = lambda f: s0.cells[(o, (f,))]
            S = inner_sim(n, m, p, g('mu_j').t, g('tol_j').t, g('sigma').t, g('L').t, b, Atb, s0.arrs[g('xk').obj], s0.arrs[g('xo').obj])
        except (KeyError, AttributeError):
            return None
        return S.try_loop(loop, s0)


class Driver(Contract):
    def __init__(self):
        Contract.__init__(self, 'l1c_nesta', N_, [(x, 'val', None) for x in ('m', 'xk', 'n', 'b', 'ax_funs', 'opts')], None, scenarios=[lambda e: self.setup(e, k) for k in (0, 1)])
        self.scenarios = [lambda e: self.setup(e, False), lambda e: self.setup(e, True), lambda e: self.setup(e, False, True)]
        self.extra_files = ('l1c_math.c', 'l1c_memory.c')

    def setup(self, e, mismatch, incomplete=False):
        n, m, p = (e.fresh_int(x, 1, 2**31 - 1) for x in 'nmp')
        e.assume(and_(le(n, m), le(m, p)))
        nw = var('norm_W', 'R')
        e.assume(gt(nw, R(0)))
        ax, nv = axtable(e, n, m, p, incomplete, nw)
        if incomplete:
            e.assume(or_(*nv))
        opts = SV(nesta_opts(e))
        e.quiet = le(opts.f[('verbose',)], I(0))
        sg, mu, tol = (opts.f[(x,)].t for x in ('sigma', 'mu', 'tol'))
        e.assume(and_(gt(sg, R(0)), gt(mu, R(0)), gt(tol, R(0))))
        m1, n1 = m, n
        if mismatch:
            m1, n1 = e.fresh_int('m_arg', -2**31, 2**31 - 1), e.fresh_int('n_arg', -2**31, 2**31 - 1)
            e.assume(or_(ne(m1, m), ne(n1, n)))
        xk = Ptr(e.new_arr('xk', m, aligned=True, init=False))
        b = Ptr(e.new_arr('b', n, aligned=True))
        bvv = e.st.arrs[b.obj]
        Atb = oAt(m, n, bvv)
        M = maxabs(oWt(m, p, Atb), p)
        e.assume(gt(M, R(0)))
        self.c = dict(n=n, m=m, p=p, b=bvv, bo=b.obj, xk=xk, sg=sg, mismatch=mismatch, incomplete=incomplete, nc=opts.f[('n_continue',)])
        mu0 = mul(NINE, M)
        nc = to_real(self.c['nc'])
        bm = uf('exp', 'R', div(uf('log', 'R', div(mu, mu0)), nc))
        bt = uf('exp', 'R', div(uf('log', 'R', div(tol, TENTH)), nc))
        self.S = outer_sim(n, m, p, bm, bt, mu0, sg, mul(nw, nw), bvv, Atb, self.c['nc'])
        if not mismatch and not incomplete:
            e.ghost_specs.append(self.S)
            e.ghost_specs.append(InnerFam(bvv, Atb, n, m, p))
        return [m1, xk, n1, b, ax, opts]

    def check(self, e, s0, args, outs):
        c = self.c
        n, m, S = c['n'], c['m'], self.S
        got = False
        for oc in outs:
            st = oc.st
            e.st = st.copy()
            v = as_int(oc.val)
            nulls = or_(*[o.nullvar for o in st.live if o not in s0.live and getattr(o, 'nullvar', None) is not None])
            x0, x1 = s0.arrs[c['xk'].obj], st.arrs[c['xk'].obj]
            same = TRUE if x0 is x1 else forall(m, lambda k: eq(app(x0, k), app(x1, k)))
            b1 = st.arrs[c['bo']]
            e.obl('func', TRUE if b1 is c['b'] else forall(n, lambda k: eq(app(b1, k), app(c['b'], k))), 'b is left unchanged')
            for o, l in st.live.items():
                if o not in s0.live:
                    e.obl('alloc', not_(l), '%s allocated here is released on every path' % o.name)
            if c['mismatch']:
                e.obl('func', eq(v, I(INVAL)), 'mismatched dimensions are rejected')
                e.obl('func', same, 'the output is not touched when dimensions are rejected')
                continue
            for fail in (False, True):
                e.st = st.copy()
                e.assume(nulls if fail else not_(nulls), 'c')
                if P.sat(e.hyps(), 1) == 'unsat':
                    continue
                if fail:
                    e.obl('alloc', eq(v, I(OOM)), 'memory exhaustion is reported')
                    e.obl('func', same, 'the output is not touched when memory is exhausted')
                elif c['incomplete']:
                    e.obl('func', eq(v, I(INCONS)), 'an incomplete operator table is rejected')
                    e.obl('func', same, 'the output is not touched when the table is rejected')
                else:
                    got = True
                    want = S.sym('x', S.Kterm())
                    e.obl('func', eq(v, I(0)), 'status is 0')
                    e.obl('func', eq(S.Kterm(), c['nc']), 'the requested number of continuations is performed')
                    e.obl('func', forall(m, lambda k: eq(app(x1, k), app(want, k))), 'the last iterate of the specified recurrence is returned')
                    e.obl('func', feas(m, n, want, c['b'], c['sg']), 'the returned point satisfies ||Ax-b|| <= sigma')
        if not (c['mismatch'] or c['incomplete']) and not got:
            e.obl('func', FALSE, 'the solver can succeed')


Driver()


# ---------------------------------------------------------------- lemmas
def lemma_project(e):
    T.UNFOLD['AAt=I'] = True
    try:
        n, m = var('n', 'I'), var('m', 'I')
        Lmu, sg = var('Lmu', 'R'), var('sigma', 'R')
        x, g, b = vatom('x'), vatom('g'), vatom('b')
        e.assume(and_(ge(n, I(1)), ge(m, n), gt(Lmu, R(0)), gt(sg, R(0))))
        v, q, Aq, d, lam, a1 = proj_def(m, n, Lmu, sg, x, g, b, oAt(m, n, b))
        r = resid(m, n, v, b)
        S = nrm2sq(d, n)
        e.assume(ge(S, R(0)))
        st0 = e.st
        pos = lt(R(0), mul(Lmu, div(sqrt(S), sg) - R(1)))
        for val in (True, False):
            e.st = st0.copy()
            e.assume(pos if val else not_(pos))
            rs = lambda t: P.subst_ites(t, pos, val) if True else t
            R_ = lambda t: resolve_max(t, S, Lmu, sg, val)
            rv = vlam(lambda k: R_(app(r, k)))
            vv = vlam(lambda k: R_(app(v, k)))
            la, aa = R_(lam), R_(a1)
            w = 'constraint %sactive' % ('' if val else 'not ')
            e.obl('func', forall(n, lambda k: eq(app(rv, k), mul(R(1) - aa, app(d, k)))), 'lemma: A v - b = (1-a1)(A q - b) (%s)' % w)
            # scalar part, in terms of rr = ||A q - b||
            keep = e.st
            e.st = keep.copy()
            rr = var('rr', 'R')
            e.assume(ge(rr, R(0)))
            l0 = mul(Lmu, div(rr, sg) - R(1))
            e.assume(gt(l0, R(0)) if val else le(l0, R(0)))
            ls = l0 if val else R(0)
            c1 = R(1) - div(ls, Lmu + ls)
            e.obl('func', eq(subst(aa, {single_atom(sqrt(S)): rr}), R(1) - c1), 'lemma: a1 depends on q through ||A q - b|| only (%s)' % w)
            if val:
                e.obl('func', gt(rr, R(0)), 'lemma: ||Aq-b|| > 0 (%s)' % w)
                e.assume(gt(rr, R(0)))      # l0 > 0 means rr > sigma > 0
                e.obl('func', eq(mul(c1, rr), sg), 'lemma: (1-a1) ||Aq-b|| = sigma (%s)' % w)
                e.assume(eq(mul(c1, rr), sg))
            e.obl('func', le(mul(mul(c1, rr), mul(c1, rr)), mul(sg, sg)), 'lemma: the projection is feasible (%s)' % w)
            e.obl('func', ge(ls, R(0)), 'lemma: the multiplier is non-negative (%s)' % w)
            e.obl('func', eq(mul(ls, mul(c1, rr) - sg), R(0)), 'lemma: complementary slackness (%s)' % w)
            e.st = keep
            e.obl('func', forall(m, lambda k: eq(app(g, k) + mul(Lmu, app(vv, k) - app(x, k)) + mul(la, app(oAt(m, n, rv), k)), R(0))), 'lemma: stationarity of the Lagrangian (%s)' % w)
    finally:
        T.UNFOLD.pop('AAt=I', None)


def resolve_max(t, S, Lmu, sg, val):
    m_ = tmax(R(0), mul(Lmu, div(sqrt(S), sg) - R(1)))
    a = single_atom(m_)
    return subst(t, {a: mul(Lmu, div(sqrt(S), sg) - R(1)) if val else R(0)})


Lemma('lemma_project', lemma_project)


def lemma_window(e):
    """the window holds exactly the last min(t,10) values of the continuation"""
    t, j = var('t', 'I'), var('j', 'I')
    f = lambda k: uf('fval_at', 'R', k)
    last = lambda t_, j_: t_ - I(1) - emod(t_ - I(1) - j_, I(NM))
    holds = lambda win, t_, j_: eq(app(win, j_), ite(lt(j_, t_), f(last(t_, j_)), R(0)))
    win = vatom('win')
    e.assume(and_(ge(t, I(0)), ge(j, I(0)), lt(j, I(NM))))
    e.obl('func', holds(vconst(0), I(0), j), 'lemma: the window starts empty')
    e.assume(holds(win, t, j))
    pos = emod(t, I(NM))
    nxt = vlam(lambda k: ite(eq(k, pos), f(t), app(win, k)))
    e.obl('func', holds(nxt, t + I(1), j), 'lemma: after a push entry j holds the latest value whose number is j modulo the window length')
    i = var('i', 'I')
    e.assume(and_(ge(i, tmax(I(0), t - I(NM))), lt(i, t), eq(emod(i, I(NM)), j)))
    e.obl('func', eq(last(t, j), i), 'lemma: that is one of the last ten values, each of them once')


Lemma('lemma_window', lemma_window)


def lemma_schedule(e):
    """multiplying n times by exp(log(final/start)/n) leads from start to final"""
    k, n = var('k', 'I'), var('n', 'I')
    s, f = var('start', 'R'), var('final', 'R')
    e.assume(and_(ge(k, I(0)), ge(n, I(1)), gt(s, R(0)), gt(f, R(0))))
    y = div(uf('log', 'R', div(f, s)), to_real(n))
    ex = lambda t: uf('exp', 'R', t)
    pw = lambda j: uf('power_of_factor', 'R', j)
    val = lambda j: mul(s, pw(j))
    # exp(0) = 1, exp(a+b) = exp(a) exp(b), exp(log r) = r for r > 0; power by its recurrence
    e.assume(and_(eq(ex(R(0)), R(1)), eq(ex(mul(to_real(k + I(1)), y)), mul(ex(mul(to_real(k), y)), ex(y))), eq(ex(uf('log', 'R', div(f, s))), div(f, s)), eq(pw(I(0)), R(1)), eq(pw(k + I(1)), mul(pw(k), ex(y)))))
    e.obl('func', eq(pw(I(0)), ex(mul(R(0), y))), 'lemma: zero steps')
    e.assume(eq(pw(k), ex(mul(to_real(k), y))))
    e.obl('func', eq(pw(k + I(1)), ex(mul(to_real(k + I(1)), y))), 'lemma: the k-fold factor is exp(k*log(final/start)/n)')
    e.obl('func', eq(mul(to_real(n), y), uf('log', 'R', div(f, s))), 'lemma: n steps make up the whole exponent')
    e.assume(eq(pw(n), ex(uf('log', 'R', div(f, s)))))
    e.obl('func', eq(val(n), f), 'lemma: after n steps the final value is reached')


Lemma('lemma_schedule', lemma_schedule)


def lemma_huber(e):
    """each coefficient contributes the Huber value, whose derivative is u"""
    w, mu = var('w', 'R'), var('mu', 'R')
    e.assume(gt(mu, R(0)))
    base = e.st
    for nm, c, hub, du in (('|w|<=mu', le(tabs(w), mu), div(mul(w, w), scale(mu, 2)), div(w, mu)), ('w>mu', gt(w, mu), w - scale(mu, Fraction(1, 2)), R(1)), ('w<-mu', lt(w, neg(mu)), neg(w) - scale(mu, Fraction(1, 2)), R(-1))):
        e.st = base.copy()
        e.assume(c)
        mx = mu if nm == '|w|<=mu' else (w if nm == 'w>mu' else neg(w))
        e.obl('func', eq(tmax(mu, tabs(w)), mx), 'lemma: max(mu,|w|) (%s)' % nm)
        u = div(w, mx)
        e.obl('func', eq(u, du), 'lemma: u is the derivative of the Huber function (%s)' % nm)
        e.obl('func', eq(mul(u, w) - scale(mul(mu, mul(u, u)), Fraction(1, 2)), hub), 'lemma: u*w - mu/2 u^2 is the Huber function (%s)' % nm)


Lemma('lemma_huber', lemma_huber)
