"""Contracts of l1qc_newton.c: barrier functional, gradient, Hessian, Newton step, maximal step, start, and the driver."""
from contract import *
from s_nesta import oA, oAt, opfn, field
import terms as T
import s_math, s_ls, s_cg

Q = 'l1qc_newton.c'
OOM, CGFAIL, INFEAS = 8, 512, 2
HALF = Fraction(1, 2)
MVEC = ('fu1', 'fu2', 'w1p', 'dx', 'du', 'sig11', 'sig12', 'ntgu')
logt = lambda t: uf('log', 'R', t)


NOF, KEEP = {}, []


def axops(n, m):
    r = dict(Ax=opfn(m, n, lambda v: oA(m, n, v), 'A'), Aty=opfn(n, m, lambda v: oAt(m, n, v), "A'"),
                AtAx=opfn(m, m, lambda v: oAt(m, n, oA(m, n, v)), "A'A"))
    NOF[id(r['AtAx'].key)] = n
    KEEP.append(r['AtAx'].key)
    return r


def prob(e):
    m = e.fresh_int('m', 1, 2**30 - 1)
    n = e.fresh_int('n', 1, 2**30 - 1)
    e.assume(le(n, m))
    o = Obj('Prb', 'cells', rtype='l1c_l1qcProb')
    for pth, ft in e.leaf_paths('l1c_l1qcProb'):
        e.st.cells[(o, pth)] = UNDEF
    put = lambda f, v: e.st.cells.__setitem__((o, (f,) if isinstance(f, str) else f), v)
    c = dict(n=n, m=m, o=o)
    put('m', m), put('n', n)
    for f in MVEC:
        c[f] = e.new_arr(f, m, aligned=True)
        put(f, Ptr(c[f]))
    for f, l in (('b', n), ('r', n), ('gradf', scale(m, 2))):
        c[f] = e.new_arr(f, l, aligned=True)
        put(f, Ptr(c[f]))
    w = Obj('DWORK7', 'ptrs', None, I(7))
    for i in range(7):
        c['W%d' % i] = e.new_arr('DWORK7[%d]' % i, m, aligned=True)
        e.st.cells[(w, (i,))] = Ptr(c['W%d' % i])
    put('DWORK7', Ptr(w))
    for f in ('tau', 'epsilon', 'fe_val', 'f_val'):
        c[f] = var(f, 'R')
        put(f, D(c[f]))
    e.assume(and_(gt(c['tau'], R(0)), gt(c['epsilon'], R(0))))
    for f, v in axops(n, m).items():
        put(('ax_funs', f), v)
    return Ptr(o), c


# ---------------------------------------------------------------- specification functions
def resid(m, n, x, b):
    return vlin((1, oA(m, n, x)), (-1, b))


def fe_of(m, n, eps, x, b):
    r = resid(m, n, x, b)
    return scale(dot(r, r, n) - mul(eps, eps), HALF)


def f_of(m, n, tau, eps, x, u, b):
    """sum(u) - (1/tau) [sum log(u-x) + sum log(u+x) + log(-fe)]"""
    return sum_(I(0), m, lambda k: app(u, k)) - mul(inv(tau), sum_(I(0), m, lambda k: logt(app(u, k) - app(x, k))) + sum_(I(0), m, lambda k: logt(app(u, k) + app(x, k))) + logt(neg(fe_of(m, n, eps, x, b))))


def wf(e, pr, node, who):
    m, n = as_int(field(e, pr, 'm')), as_int(field(e, pr, 'n'))
    w = field(e, pr, 'DWORK7', node)
    e.check_access(w, I(7), node, '%s: DWORK7' % who)
    wellformed(e, [(f, field(e, pr, f, node), m) for f in MVEC] + [('b', field(e, pr, 'b', node), n), ('r', field(e, pr, 'r', node), n), ('gradf', field(e, pr, 'gradf', node), scale(m, 2))]
               + [('DWORK7[%d]' % i, e.st.cells.get((w.obj, (i,)), UNDEF), m) for i in range(7)], node, who)


def scratch(e, pr, which=range(7)):
    w = field(e, pr, 'DWORK7')
    for i in which:
        q = e.st.cells.get((w.obj, (i,)))
        if isinstance(q, Ptr) and q.obj is not None and q.obj in e.st.arrs:
            e.st.arrs[q.obj] = fresh_vec('c!W%d' % i)


class ProbContract(Contract):
    """work arrays DWORK7 are not part of the result"""
    def work_objs(self, args):
        return {o for o in self._s0.arrs if o.name.startswith('DWORK7')}

    def check(self, e, s0, args, outs):
        self._s0 = s0
        Contract.check(self, e, s0, args, outs)


class FEval(Contract):
    def work_objs(self, args):
        # the line search keeps its trial point in the first two work arrays: only the others are scratch here
        return {o for o in self._s0.arrs if o.name.startswith('DWORK7') and o.name not in ('DWORK7[0]', 'DWORK7[1]')}

    def check(self, e, s0, args, outs):
        self._s0 = s0
        Contract.check(self, e, s0, args, outs)

    def __init__(self):
        Contract.__init__(self, '_l1c_l1qc_f_eval', Q, [('problem_data', 'val', None), ('x', 'arr', None, 'in'), ('u', 'arr', None, 'in')], self.eff, scenarios=[self.setup])

    def setup(self, e):
        e.lognan = True
        pr, c = prob(e)
        x, u = (Ptr(e.new_arr(q, c['m'], aligned=True)) for q in 'xu')
        return [pr, x, u]

    def apply(self, e, args, node):
        A = self.named(args)
        pr = A['problem_data']
        wf(e, pr, node, self.name)
        e.obl('pre', ne(as_d(field(e, pr, 'tau')).t, R(0)), '_l1c_l1qc_f_eval: tau is not zero', node)
        out = [field(e, pr, f).obj for f in ('r', 'fu1', 'fu2')]
        for q in (A['x'], A['u']):
            e.obl('mpre', TRUE if isinstance(q, Ptr) and q.obj is not None and q.obj not in out else FALSE, '_l1c_l1qc_f_eval: the point is not held in the record itself', node)
            e.obl('align', TRUE if q.obj.aligned and is_const(q.off) == 0 else FALSE, '_l1c_l1qc_f_eval: the point is 64-byte aligned', node)
        e.obl('mpre', TRUE if len(set(out)) == 3 else FALSE, '_l1c_l1qc_f_eval: the record arrays are distinct', node)
        old = e.lognan
        e.lognan = True
        try:
            r = self.eff(e, A, node)
            scratch(e, pr, range(2, 7))
            return r
        finally:
            e.lognan = old

    def eff(self, e, A, node):
        pr = A['problem_data']
        m, n = as_int(field(e, pr, 'm')), as_int(field(e, pr, 'n'))
        eps, tau = as_d(field(e, pr, 'epsilon')).t, as_d(field(e, pr, 'tau')).t
        x, u, b = e.rview(A['x'], m, node), e.rview(A['u'], m, node), e.rview(field(e, pr, 'b'), n, node)
        e.wview(field(e, pr, 'r'), n, resid(m, n, x, b), node)
        fu1, fu2 = vlin((1, x), (-1, u)), vlin((-1, x), (-1, u))
        e.wview(field(e, pr, 'fu1'), m, fu1, node)
        e.wview(field(e, pr, 'fu2'), m, fu2, node)
        fe = fe_of(m, n, eps, x, b)
        nan = or_(s_math.logbad(e, m, R(-1), fu1), s_math.logbad(e, m, R(-1), fu2), ge(fe, R(0)))
        f = D(f_of(m, n, tau, eps, x, u, b), nan)
        e.st.cells[(pr.obj, pr.path + ('fe_val',))] = D(fe)
        e.st.cells[(pr.obj, pr.path + ('f_val',))] = f
        return f


FEval()


# ---------------------------------------------------------------- Hessian operator
def hess_op(m, n, obf, obf2, sigx, atr, z):
    """y = sigx.*z - (1/fe) A'A z + (1/fe^2) (atr'z) atr"""
    AAz = oAt(m, n, oA(m, n, z))
    d = dot(atr, z, m)
    return vlam(lambda k: mul(app(sigx, k), app(z, k)) - mul(obf, app(AAz, k)) + mul(mul(obf2, d), app(atr, k)))


class H11(Contract):
    def __init__(self):
        Contract.__init__(self, '_l1c_l1qc_H11pfun', Q, [('m', 'val', None), ('z', 'arr', None, 'in'), ('y', 'arr', None, 'out'), ('hess_data_in', 'val', None)], self.eff, scenarios=[self.setup])

    def setup(self, e):
        m, n = e.fresh_int('m', 1, 2**30 - 1), e.fresh_int('n', 1, 2**30 - 1)
        self.n = n
        o = Obj('hess_data', 'cells', rtype='Hess_data')
        for f in ('one_by_fe', 'one_by_fe_sqrd'):
            e.st.cells[(o, (f,))] = D(var(f, 'R'))
        for f in ('atr', 'sigx', 'Dwork_1m'):
            e.st.cells[(o, (f,))] = Ptr(e.new_arr(f, m, aligned=True))
        g = axops(n, m)['AtAx']
        e.st.cells[(o, ('AtAx',))] = g
        return [m, Ptr(e.new_arr('z', m, aligned=True)), Ptr(e.new_arr('y', m, aligned=True)), Ptr(o)]

    def apply(self, e, args, node):
        m, z, y, d = args
        arr = [field(e, d, f).obj for f in ('atr', 'sigx')]
        e.obl('mpre', TRUE if z.obj is not y.obj and y.obj not in arr else FALSE, '_l1c_l1qc_H11pfun: arrays do not overlap', node)
        for q in (z, y):
            e.obl('align', TRUE if q.obj.aligned and is_const(q.off) == 0 else FALSE, '_l1c_l1qc_H11pfun: arrays are 64-byte aligned', node)
        return self.eff(e, self.named(args), node)

    def eff(self, e, A, node):
        d = A['hess_data_in']
        m = as_int(A['m'])
        z = e.rview(A['z'], m, node)
        sigx, atr = (e.rview(field(e, d, f), m, node) for f in ('sigx', 'atr'))
        obf, obf2 = (as_d(field(e, d, f)).t for f in ('one_by_fe', 'one_by_fe_sqrd'))
        # the operator the record names, applied to z
        n = self.n_of(e, field(e, d, 'AtAx'))
        e.rview(A['y'], m, node)
        e.wview(A['y'], m, hess_op(m, n, obf, obf2, sigx, atr, z), node)

    def n_of(self, e, f):
        n = NOF.get(id(f.key))
        if n is None:
            raise Unsupported("the record's A'A is not a known operator")
        return n


H11()


# ---------------------------------------------------------------- gradient and Hessian parameters
def hg(fu1, fu2, fe, tau, atr):
    o1, o2 = (lambda k: inv(app(fu1, k))), (lambda k: inv(app(fu2, k)))
    ntgz = lambda k: o1(k) - o2(k) + mul(inv(fe), app(atr, k))
    ntgu = lambda k: neg(tau) - o1(k) - o2(k)
    s11 = lambda k: mul(o1(k), o1(k)) + mul(o2(k), o2(k))
    s12 = lambda k: mul(o2(k), o2(k)) - mul(o1(k), o1(k))
    sx = lambda k: s11(k) - div(mul(s12(k), s12(k)), s11(k))
    w1p = lambda k: ntgz(k) - mul(div(s12(k), s11(k)), ntgu(k))
    return dict(ntgz=ntgz, ntgu=ntgu, sig11=s11, sig12=s12, sigx=sx, w1p=w1p)


class HessGrad(Contract):
    def __init__(self):
        Contract.__init__(self, '_l1c_l1qc_hess_grad', Q, [('Prb', 'val', None), ('sigx', 'arr', None, 'out'), ('atr', 'arr', None, 'in')], self.eff, scenarios=[self.setup])

    def setup(self, e):
        pr, c = prob(e)
        e.assume(self.feas(e, pr))
        e.assume(lt(c['fe_val'], R(0)))
        sx, at = (Ptr(e.new_arr(q, c['m'], aligned=True)) for q in ('sigx', 'atr'))
        return [pr, sx, at]

    def feas(self, e, pr):
        m = as_int(field(e, pr, 'm'))
        f1, f2 = (e.view(field(e, pr, f), m) for f in ('fu1', 'fu2'))
        return forall(m, lambda k: and_(lt(app(f1, k), R(0)), lt(app(f2, k), R(0))))

    def apply(self, e, args, node):
        pr = args[0]
        wf(e, pr, node, self.name)
        e.obl('pre', self.feas(e, pr), '_l1c_l1qc_hess_grad: the point is strictly inside |x|<u', node)
        e.obl('pre', and_(lt(as_d(field(e, pr, 'fe_val')).t, R(0)), gt(as_d(field(e, pr, 'tau')).t, R(0))), '_l1c_l1qc_hess_grad: the point is strictly inside the cone, tau positive', node)
        return self.eff(e, self.named(args), node)

    def eff(self, e, A, node):
        pr = A['Prb']
        m = as_int(field(e, pr, 'm'))
        f1, f2, at = (e.rview(q, m, node) for q in (field(e, pr, 'fu1'), field(e, pr, 'fu2'), A['atr']))
        fe, tau = (as_d(field(e, pr, f)).t for f in ('fe_val', 'tau'))
        s = hg(f1, f2, fe, tau, at)
        it = neg(inv(tau))
        e.wview(field(e, pr, 'gradf'), scale(m, 2), vlam(lambda k: mul(it, ite(lt(k, m), s['ntgz'](k), s['ntgu'](k - m)))), node)
        for f in ('w1p', 'sig11', 'sig12', 'ntgu'):
            e.wview(field(e, pr, f), m, vlam(s[f]), node)
        e.wview(A['sigx'], m, vlam(s['sigx']), node)


HessGrad()


# ---------------------------------------------------------------- Newton direction
def h11(m, n, fu1, fu2, fe, tau, r, z):
    """the reduced Hessian of the specification at the point of the record, applied to z"""
    atr = oAt(m, n, r)
    g = hg(fu1, fu2, fe, tau, atr)
    return hess_op(m, n, inv(fe), inv(mul(fe, fe)), vlam(g['sigx']), atr, z)


def cg_result(e):
    o = Obj('cg_result', 'cells', rtype='l1c_CgResults')
    e.st.cells[(o, ('cgres',))] = UNDEF
    e.st.cells[(o, ('cgiter',))] = UNDEF
    return Ptr(o)


def cg_params(e):
    mi, vb = e.fresh_int('max_iter', 0, 2**31 - 2), e.fresh_int('verbose', -2**31, 2**31 - 1)
    return SV({('verbose',): vb, ('max_iter',): mi, ('tol',): D(var('tol', 'R'))})


class Descent(ProbContract):
    def __init__(self):
        Contract.__init__(self, '_l1c_l1qc_descent_dir', Q, [('Prb', 'val', None), ('cg_params', 'val', None), ('cg_result', 'val', None)], None, scenarios=[self.setup])

    def setup(self, e):
        pr, c = prob(e)
        m, n = c['m'], c['n']
        f1, f2, r = (e.st.arrs[c[q]] for q in ('fu1', 'fu2', 'r'))
        e.assume(forall(m, lambda k: and_(lt(app(f1, k), R(0)), lt(app(f2, k), R(0)))))
        e.assume(lt(c['fe_val'], R(0)))
        w = vlam(hg(f1, f2, c['fe_val'], c['tau'], oAt(m, n, r))['w1p'])
        e.assume(ne(dot(w, w, m), R(0)))
        self.c = c
        return [pr, cg_params(e), cg_result(e)]

    def check(self, e, s0, args, outs):
        c = self.c
        m, n = c['m'], c['n']
        V0 = lambda f: s0.arrs[c[f]]
        f1, f2, r, fe, tau = V0('fu1'), V0('fu2'), V0('r'), c['fe_val'], c['tau']
        g = hg(f1, f2, fe, tau, oAt(m, n, r))
        w = vlam(g['w1p'])
        H = lambda z: h11(m, n, f1, f2, fe, tau, r, z)

        def res(z):
            d = vlin((1, w), (-1, H(z)))
            return sqrt(div(dot(d, d, m), dot(w, w, m)))
        same = lambda what, a, b, N=m: e.obl('func', TRUE if a is b else forall(N, lambda k: eq(app(a, k), app(b, k))), what)
        for oc in outs:
            st = oc.st
            V1 = lambda f: st.arrs[c[f]]
            e.st = st.copy()
            for f in ('w1p', 'sig11', 'sig12', 'ntgu'):
                same('%s as specified' % f, V1(f), vlam(g[f]))
            it = neg(inv(tau))
            same('gradf is the gradient', V1('gradf'), vlam(lambda k: mul(it, ite(lt(k, m), g['ntgz'](k), g['ntgu'](k - m)))), scale(m, 2))
            for f, l in (('b', n), ('r', n), ('fu1', m), ('fu2', m)):
                same('%s is left unchanged (frame)' % f, V1(f), V0(f), l)
            for f in ('tau', 'epsilon', 'fe_val', 'f_val', 'm', 'n'):
                e.obl('func', eq_val(st.cells[(c['o'], (f,))], s0.cells[(c['o'], (f,))]), '%s is left unchanged (frame)' % f)
            ro = args[2].obj
            cr = as_d(st.cells[(ro, ('cgres',))]).t
            e.obl('func', eq(cr, res(V1('dx'))), 'the reported residual is ||w1p - H11 dx|| / ||w1p||')
            e.obl('func', le(cr, res(V0('dx'))), 'it is at most that of the dx passed in')
            v = as_int(oc.val)
            for bad in (True, False):
                e.st = st.copy()
                cond = gt(cr, R(HALF))
                e.assume(cond if bad else not_(cond), 'c')
                if P.sat(e.hyps(), 1) == 'unsat':
                    continue
                e.obl('func', eq(v, I(CGFAIL if bad else 0)), 'failure is reported exactly when the residual exceeds 1/2')
                if bad:
                    same('du is left unchanged on failure', V1('du'), V0('du'))
                else:
                    dx = V1('dx')
                    same('du = ntgu/sig11 - (sig12/sig11) dx', V1('du'), vlam(lambda k: mul(inv(g['sig11'](k)), g['ntgu'](k)) - mul(div(g['sig12'](k), g['sig11'](k)), app(dx, k))))

    def apply(self, e, args, node):
        """for the driver: the direction is arbitrary, the point of the record stays"""
        pr, cgp, res = args
        m = as_int(field(e, pr, 'm'))
        f1, f2 = (e.view(field(e, pr, f), m) for f in ('fu1', 'fu2'))
        e.obl('pre', forall(m, lambda k: and_(lt(app(f1, k), R(0)), lt(app(f2, k), R(0)))), 'descent direction: the point is strictly inside |x|<u', node)
        e.obl('pre', and_(lt(as_d(field(e, pr, 'fe_val')).t, R(0)), gt(as_d(field(e, pr, 'tau')).t, R(0))), 'descent direction: the point is strictly inside the cone, tau positive', node)
        wf(e, pr, node, self.name)
        for f in ('r', 'dx', 'du'):
            e.rview(field(e, pr, f), m if f != 'r' else as_int(field(e, pr, 'n')), node, f)
        for f in ('w1p', 'dx', 'du', 'sig11', 'sig12', 'ntgu'):
            e.wview(field(e, pr, f), m, fresh_vec('c!' + f), node)
        e.wview(field(e, pr, 'gradf'), scale(m, 2), fresh_vec('c!gradf'), node)
        w = field(e, pr, 'DWORK7')
        for i in range(7):
            e.wview(e.st.cells[(w.obj, (i,))], m, fresh_vec('c!W%d' % i), node)
        e.st.cells[(res.obj, res.path + ('cgres',))] = D(fresh('c!cgres', 'R'))
        e.st.cells[(res.obj, res.path + ('cgiter',))] = e.fresh_int('c!cgiter', 0, cgp.f[('max_iter',)])
        k = fresh('c!dirfail', 'B')
        return ite(k, I(CGFAIL), I(0))


Descent()


# ---------------------------------------------------------------- maximal step
class MaxStep(ProbContract):
    def __init__(self):
        Contract.__init__(self, '_l1c_l1qc_find_max_step', Q, [('Prb', 'val', None)], None, scenarios=[self.setup])

    def setup(self, e):
        pr, c = prob(e)
        m, n = c['m'], c['n']
        f1, f2, r, dx = (e.st.arrs[c[q]] for q in ('fu1', 'fu2', 'r', 'dx'))
        e.assume(forall(m, lambda k: and_(lt(app(f1, k), R(0)), lt(app(f2, k), R(0)))))
        eps = c['epsilon']
        e.assume(lt(dot(r, r, n), mul(eps, eps)))
        Ad = oA(m, n, dx)
        aa, ra = dot(Ad, Ad, n), dot(r, Ad, n)
        # a sum of squares is not negative; it vanishes only with its vector (Cauchy-Schwarz)
        e.assume(ge(aa, R(0)))
        e.assume(or_(ne(aa, R(0)), eq(ra, R(0))))
        self.c = c
        return [pr]

    def check(self, e, s0, args, outs):
        c = self.c
        m, n = c['m'], c['n']
        V0 = lambda f: s0.arrs[c[f]]
        f1, f2, r, dx, du, eps = V0('fu1'), V0('fu2'), V0('r'), V0('dx'), V0('du'), c['epsilon']
        Ad = oA(m, n, dx)
        for oc in outs:
            st = oc.st
            e.st = st.copy()
            s = as_d(oc.val)
            e.obl('func', not_(s.nan), 'the step is a number')
            e.obl('func', le(s.t, R(Fraction(99, 100))), 'the step is at most 0.99')
            t = var('t', 'R')
            base = e.st
            e.obl('func', gt(s.t, R(0)), 'the step is positive')
            e.st = base.copy()
            e.assume(and_(ge(t, R(0)), le(t, s.t)))
            e.obl('func', forall(m, lambda k: lt(app(f1, k) + mul(t, app(dx, k) - app(du, k)), R(0))), 'x - u stays negative along the whole step')
            e.obl('func', forall(m, lambda k: lt(app(f2, k) + mul(t, neg(app(dx, k)) - app(du, k)), R(0))), '-x - u stays negative along the whole step')
            q = vlin((1, r), (t, Ad))
            e.obl('func', lt(dot(q, q, n), mul(eps, eps)), '||r + t A dx|| stays below epsilon along the whole step')
            e.st = st.copy()
            for f in ('b', 'r', 'fu1', 'fu2', 'w1p', 'dx', 'du', 'sig11', 'sig12', 'ntgu', 'gradf'):
                a, b = V0(f), st.arrs[c[f]]
                e.obl('func', TRUE if a is b else forall(c[f].len, lambda k: eq(app(a, k), app(b, k))), '%s is left unchanged (frame)' % f)
            for f in ('tau', 'epsilon', 'fe_val', 'f_val', 'm', 'n'):
                e.obl('func', eq_val(st.cells[(c['o'], (f,))], s0.cells[(c['o'], (f,))]), '%s is left unchanged (frame)' % f)

    def apply(self, e, args, node):
        pr = args[0]
        m, n = as_int(field(e, pr, 'm')), as_int(field(e, pr, 'n'))
        f1, f2, r = e.view(field(e, pr, 'fu1'), m), e.view(field(e, pr, 'fu2'), m), e.view(field(e, pr, 'r'), n)
        eps = as_d(field(e, pr, 'epsilon')).t
        e.obl('pre', forall(m, lambda k: and_(lt(app(f1, k), R(0)), lt(app(f2, k), R(0)))), 'maximal step: the point is strictly inside |x|<u', node)
        e.obl('pre', lt(dot(r, r, n), mul(eps, eps)), 'maximal step: the point is strictly inside the cone', node)
        for f in ('dx', 'du'):
            e.rview(field(e, pr, f), m, node, f)
        wf(e, pr, node, self.name)
        scratch(e, pr)
        s = fresh('c!smax', 'R')
        e.assume(and_(gt(s, R(0)), le(s, R(Fraction(99, 100)))))
        return D(s)


MaxStep()


# ---------------------------------------------------------------- starting point
class Init(Contract):
    def __init__(self):
        Contract.__init__(self, '_l1c_l1qc_newton_init', Q, [('m', 'int', 1), ('x', 'arr', 'm', 'in'), ('u', 'arr', 'm', 'out'), ('params', 'val', self.pars)], self.eff, pre=self.pre_)

    def pars(self, e, vals):
        o = Obj('params', 'cells', rtype='l1c_L1qcOpts')
        for pth, v in l1qc_opts(e).items():
            e.st.cells[(o, pth)] = v
        return Ptr(o)

    def pre_(self, e, A):
        m = A['m']
        x = e.view(A['x'], m)
        f = lambda q: as_d(field(e, A['params'], q)).t
        return and_(le(m, I(2**30 - 1)), gt(l1(x, m), R(0)), gt(f('mu'), R(1)), gt(f('lbtol'), R(0)))

    def eff(self, e, A, node):
        m, pr = A['m'], A['params']
        x = e.rview(A['x'], m, node)
        M = range_ext('maxr', I(0), m, neg(e.inf()), lambda k: tabs(app(x, k)))
        e.wview(A['u'], m, vlam(lambda k: scale(tabs(app(x, k)), Fraction(95, 100)) + scale(M, Fraction(1, 10))), node)
        tau = tmax(div(to_real(scale(m, 2) + I(1)), l1(x, m)), R(1))
        e.st.cells[(pr.obj, pr.path + ('tau',))] = D(tau)
        lb = as_int(field(e, pr, 'lbiter'))
        q = div(logt(to_real(scale(m, 2)) + R(1)) - logt(as_d(field(e, pr, 'lbtol')).t) - logt(tau), logt(as_d(field(e, pr, 'mu')).t))
        e.st.cells[(pr.obj, pr.path + ('lbiter',))] = ite(eq(lb, I(0)), uf('ceil', 'I', q), lb)
        return I(0)


def l1(x, m):
    return sum_(I(0), m, lambda k: tabs(app(x, k)))


def l1qc_opts(e):
    f = {}
    for pth, ft in e.leaf_paths('l1c_L1qcOpts'):
        nm = pth[0]
        f[pth] = D(var(nm, 'R')) if 'double' in ft else e.fresh_int(nm, -2**31, 2**31 - 1)
    return f


Init()


# ---------------------------------------------------------------- feasibility of the start
class FeasStart(ProbContract):
    def __init__(self):
        Contract.__init__(self, '_l1c_l1qc_check_feasible_start', Q, [('Prb', 'val', None), ('x', 'arr', None, 'in')], self.eff, scenarios=[self.setup])

    def setup(self, e):
        pr, c = prob(e)
        return [pr, Ptr(e.new_arr('x', c['m'], aligned=True))]

    def eff(self, e, A, node):
        pr = A['Prb']
        m, n = as_int(field(e, pr, 'm')), as_int(field(e, pr, 'n'))
        x, b = e.rview(A['x'], m, node), e.rview(field(e, pr, 'b'), n, node)
        r = resid(m, n, x, b)
        return ite(gt(sqrt(dot(r, r, n)), as_d(field(e, pr, 'epsilon')).t), I(INFEAS), I(0))

    def apply(self, e, args, node):
        r = self.eff(e, self.named(args), node)
        pr = args[0]
        wf(e, pr, node, self.name)
        scratch(e, pr)
        return r


FeasStart()


# ---------------------------------------------------------------- the driver
class Driver(Contract):
    def __init__(self):
        Contract.__init__(self, 'l1c_l1qc_newton', Q, [(x, 'val', None) for x in ('m', 'x', 'n', 'b', 'params', 'Ax_funs')], None, scenarios=[self.setup])
        self.extra_files = ('l1c_math.c', 'l1c_memory.c')

    def setup(self, e):
        m, n = e.fresh_int('m', 1, 2**30 - 1), e.fresh_int('n', 1, 2**30 - 1)
        e.assume(le(n, m))
        x, b = Ptr(e.new_arr('x', m, aligned=True)), Ptr(e.new_arr('b', n, aligned=True))
        xv, bv = e.st.arrs[x.obj], e.st.arrs[b.obj]
        opts = l1qc_opts(e)
        f = lambda q: opts[(q,)].t
        eps = f('epsilon')
        e.assume(and_(gt(eps, R(0)), gt(f('mu'), R(1)), gt(f('lbtol'), R(0)), ge(opts[('cg_maxiter',)], I(0)), le(opts[('cg_maxiter',)], I(2**31 - 2))))
        e.assume(gt(l1(xv, m), R(0)))
        r = resid(m, n, xv, bv)
        e.assume(ne(dot(r, r, n), mul(eps, eps)))
        e.assume(ge(dot(r, r, n), R(0)))
        # some entry of x is not zero
        w = e.fresh_int('w', 0)
        e.assume(and_(lt(w, m), gt(tabs(app(xv, w)), R(0))))
        fs = {}
        ops = axops(n, m)
        for pth, ft in e.leaf_paths('l1c_AxFuns'):
            nm = pth[0]
            if nm in ops:
                fs[pth] = ops[nm]
            elif nm in ('n', 'm', 'p', 'q'):
                fs[pth] = dict(n=n, m=m, p=m, q=m)[nm]
            elif nm == 'norm_W':
                fs[pth] = D(var('norm_W', 'R'))
            elif nm == 'data':
                fs[pth] = Ptr(None, None, TRUE)
            else:
                fs[pth] = FnV('unused operator ' + nm)
        self.c = dict(m=m, n=n, x=x.obj, b=b.obj, eps=eps, feas=lt(dot(r, r, n), mul(eps, eps)))
        e.quiet = None
        e.invs = [self.invs]
        return [m, x, n, b, SV(opts), SV(fs)]

    def strict(self, st, u):
        """|x| < u and ||Ax-b|| < eps, as formulas over the state"""
        c = self.c
        m, n = c['m'], c['n']
        x, b, uv = st.arrs[c['x']], st.arrs[c['b']], st.arrs[u]
        r = resid(m, n, x, b)
        return [('|x| < u', forall(m, lambda k: and_(lt(app(x, k), app(uv, k)), lt(neg(app(x, k)), app(uv, k))))),
                ('||Ax-b|| < eps', lt(dot(r, r, n), mul(c['eps'], c['eps'])))]

    def find(self, s0):
        recs = {k[0] for k in s0.cells if (k[0].rtype or '').split()[-1:] == ['l1c_l1qcProb']}
        if len(recs) != 1:
            return None
        o = recs.pop()
        try:
            own = {s0.cells[(o, (f,))].obj for f in ('r', 'fu1', 'fu2', 'w1p', 'dx', 'du', 'sig11', 'sig12', 'ntgu', 'gradf')}
            w = s0.cells[(o, ('DWORK7',))].obj
            own |= {v.obj for k, v in s0.cells.items() if k[0] is w and isinstance(v, Ptr)}
        except (KeyError, AttributeError):
            return None
        us = [a for a in s0.arrs if a not in own and a not in (self.c['x'], self.c['b']) and a.heap]
        return (o, us[0]) if len(us) == 1 else None

    def invs(self, loop, s0, mod_c, mod_a):
        q = self.find(s0)
        if q is None:
            return []
        o, u = q
        c = self.c
        m, n = c['m'], c['n']
        cell = lambda st, f: st.cells[(o, (f,))]
        V = lambda st, f: st.arrs[cell(st, f).obj]

        def same(f, spec, N):
            return lambda st: forall(N, lambda k: eq(app(V(st, f), k), app(spec(st.arrs[c['x']], st.arrs[u], st.arrs[c['b']]), k)))
        cand = [('|x| < u', lambda st: self.strict(st, u)[0][1]), ('||Ax-b|| < eps', lambda st: self.strict(st, u)[1][1]),
                ('tau > 0', lambda st: gt(as_d(cell(st, 'tau')).t, R(0))),
                ('epsilon is that of the caller', lambda st: eq(as_d(cell(st, 'epsilon')).t, c['eps']))]
        if V(s0, 'r') is not None and s0.cells.get((o, ('f_val',))) is not UNDEF:
            cand += [('r = Ax-b', same('r', lambda x, u_, b: resid(m, n, x, b), n)),
                     ('fu1 = x-u', same('fu1', lambda x, u_, b: vlin((1, x), (-1, u_)), m)),
                     ('fu2 = -x-u', same('fu2', lambda x, u_, b: vlin((-1, x), (-1, u_)), m)),
                     ('fe_val', lambda st: eq(as_d(cell(st, 'fe_val')).t, fe_of(m, n, c['eps'], st.arrs[c['x']], st.arrs[c['b']]))),
                     ("r'r = 2 fe + eps^2", lambda st: eq(dot(V(st, 'r'), V(st, 'r'), n), scale(as_d(cell(st, 'fe_val')).t, 2) + mul(c['eps'], c['eps']))),
                     ('the functional is finite', lambda st: not_(as_d(cell(st, 'f_val')).nan))]
        return cand

    def check(self, e, s0, args, outs):
        c = self.c
        m, n = c['m'], c['n']
        got = set()
        for oc in outs:
            st = oc.st
            e.st = st.copy()
            nulls = or_(*[o.nullvar for o in st.live if o not in s0.live and getattr(o, 'nullvar', None) is not None])
            x0, x1, b0, b1 = s0.arrs[c['x']], st.arrs[c['x']], s0.arrs[c['b']], st.arrs[c['b']]
            same = TRUE if x0 is x1 else forall(m, lambda k: eq(app(x0, k), app(x1, k)))
            e.obl('func', TRUE if b0 is b1 else forall(n, lambda k: eq(app(b0, k), app(b1, k))), 'b is left unchanged')
            v = as_int(oc.val.f[('status',)])
            e.obl('func', eq_val(oc.val.f[('l1',)], D(l1(x1, m))), 'the reported l1 norm is that of the returned point')
            for o, l in st.live.items():
                if o not in s0.live:
                    e.obl('alloc', not_(l), '%s allocated here is released on every path' % o.name)
            for case in ('memory', 'infeasible', 'run'):
                e.st = st.copy()
                e.assume(nulls if case == 'memory' else not_(nulls), 'c')
                if case != 'memory':
                    e.assume(c['feas'] if case == 'run' else not_(c['feas']), 'c')
                if P.sat(e.hyps(), 1) == 'unsat':
                    continue
                got.add(case)
                if case == 'memory':
                    e.obl('alloc', eq(v, I(OOM)), 'memory exhaustion is reported')
                    e.obl('func', same, 'x is not touched when memory is exhausted')
                elif case == 'infeasible':
                    e.obl('func', eq(v, I(INFEAS)), 'an infeasible start is reported')
                    e.obl('func', same, 'x is not touched when the start is infeasible')
                else:
                    e.obl('func', eq(v, I(0)), 'status is 0 from a strictly feasible start')
                    r = resid(m, n, x1, b0)
                    e.obl('func', lt(dot(r, r, n), mul(c['eps'], c['eps'])), 'the returned point satisfies ||Ax-b|| < epsilon')
        if not {'infeasible', 'run'} <= got:
            e.obl('func', FALSE, 'the solver can run')


Driver()


# ---------------------------------------------------------------- lemmas over the specification functions
def lemma_newton(e):
    """an exact solution of the reduced system together with du solves the full Newton system; the reduced operator is linear"""
    m, n = var('m', 'I'), var('n', 'I')
    f1, f2, r, dx, b = (vatom(q) for q in ('fu1', 'fu2', 'r', 'dx', 'b'))
    fe, tau = var('fe', 'R'), var('tau', 'R')
    e.assume(and_(ge(m, I(1)), ge(n, I(1)), lt(fe, R(0)), gt(tau, R(0))))
    e.assume(forall(m, lambda k: and_(lt(app(f1, k), R(0)), lt(app(f2, k), R(0)))))
    atr = oAt(m, n, r)
    g = hg(f1, f2, fe, tau, atr)
    H = lambda z: h11(m, n, f1, f2, fe, tau, r, z)
    e.obl('func', forall(m, lambda k: gt(g['sig11'](k), R(0))), 'lemma: the diagonal block is positive')
    k = var('k', 'I')
    e.assume(and_(ge(k, I(0)), lt(k, m), lt(app(f1, k), R(0)), lt(app(f2, k), R(0)), gt(g['sig11'](k), R(0))))
    # scalar images, so that the algebra is about one coordinate
    a1, a2, at = var('o1', 'R'), var('o2', 'R'), var('at', 'R')
    AAz = app(oAt(m, n, oA(m, n, dx)), k)
    dense = neg(mul(inv(fe), AAz)) + mul(mul(inv(mul(fe, fe)), dot(atr, dx, m)), app(atr, k))
    s11, s12 = g['sig11'](k), g['sig12'](k)
    x = app(dx, k)
    e.assume(ne(s11, R(0)))
    e.obl('func', eq(app(H(dx), k), mul(g['sigx'](k), x) + dense), 'lemma: the reduced operator is diag(sigx) plus the dense block')
    s, t, z_, u_, d_, xx = (var(q, 'R') for q in ('s11', 's12', 'ntgz', 'ntgu', 'dense', 'dxk'))
    base = e.st
    e.st = type(base)()
    e.assume(gt(s, R(0)))
    sx, w = s - div(mul(t, t), s), z_ - mul(div(t, s), u_)
    du = mul(inv(s), u_) - mul(div(t, s), xx)
    e.assume(eq(mul(sx, xx) + d_, w))
    e.obl('func', eq(mul(t, xx) + mul(s, du), u_), 'lemma: second block row, sig12 dx + sig11 du = ntgu')
    e.obl('func', eq(mul(s, xx) + d_ + mul(t, du), z_), 'lemma: first block row, (sig11 + dense) dx + sig12 du = ntgz')
    e.st = base
    p, q = vatom('p'), vatom('q')
    al = var('alpha', 'R')
    e.obl('func', forall(m, lambda j: eq(app(H(vlin((1, p), (al, q))), j), app(H(p), j) + mul(al, app(H(q), j)))), 'lemma: the reduced operator is linear')


Lemma('lemma_newton', lemma_newton)


def lemma_gradient(e):
    """gradient and Hessian blocks of the barrier functional by the rules of differentiation (d log g = g'/g, d (1/g) = -g'/g^2)"""
    m, n = var('m', 'I'), var('n', 'I')
    x, u, b, atr = (vatom(q) for q in 'xub') if False else (vatom('x'), vatom('u'), vatom('b'), vatom('atr'))
    fe, tau, k = var('fe', 'R'), var('tau', 'R'), var('k', 'I')
    e.assume(and_(ge(m, I(1)), ge(k, I(0)), lt(k, m), lt(fe, R(0)), gt(tau, R(0))))
    xk, uk, ak = app(x, k), app(u, k), app(atr, k)
    e.assume(and_(lt(xk, uk), lt(neg(xk), uk)))
    g = hg(vlin((1, x), (-1, u)), vlin((-1, x), (-1, u)), fe, tau, atr)
    dlog = lambda gg, dg: div(dg, gg)
    it = inv(tau)
    # f = sum u - (1/tau)[sum log(u-x) + sum log(u+x) + log(-fe)];  d fe/dx_k = (A'r)_k
    fx = neg(mul(it, dlog(uk - xk, R(-1)) + dlog(uk + xk, R(1)) + dlog(neg(fe), neg(ak))))
    fu = R(1) - mul(it, dlog(uk - xk, R(1)) + dlog(uk + xk, R(1)))
    e.obl('func', eq(neg(mul(it, g['ntgz'](k))), fx), 'lemma: the x part of gradf is the derivative of the functional')
    e.obl('func', eq(neg(mul(it, g['ntgu'](k))), fu), 'lemma: the u part of gradf is the derivative of the functional')
    # second derivatives times tau; the diagonal part comes from the two sums of logarithms
    dinv = lambda gg, dg: neg(div(dg, mul(gg, gg)))
    xx = neg(mul(R(-1), dinv(uk - xk, R(-1))) + dinv(uk + xk, R(1)))
    xu = neg(mul(R(-1), dinv(uk - xk, R(1))) + dinv(uk + xk, R(1)))
    uu = neg(dinv(uk - xk, R(1)) + dinv(uk + xk, R(1)))
    e.obl('func', eq(g['sig11'](k), xx), 'lemma: sig11 is the diagonal xx block')
    e.obl('func', eq(g['sig12'](k), xu), 'lemma: sig12 is the xu block')
    e.obl('func', eq(g['sig11'](k), uu), 'lemma: sig11 is the uu block')
    # dense part: d/dx_j of -(1/(-fe)) (-atr_k) = atr_k/fe, i.e. -( (A'A)_kj / fe - atr_k atr_j / fe^2 )
    AAkj, aj = var('AAkj', 'R'), var('atr_j', 'R')
    d = neg(div(AAkj, fe) + mul(ak, dinv(fe, aj)))
    e.obl('func', eq(neg(mul(inv(fe), AAkj)) + mul(inv(mul(fe, fe)), mul(ak, aj)), d), 'lemma: the dense block of the reduced operator')


Lemma('lemma_gradient', lemma_gradient)
