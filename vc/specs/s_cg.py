"""Contracts of cgsolve.c: both solvers follow the specified CG recurrence; lemmas over the recurrence give the
residual identity and best-iterate guarantees."""
from contract import *
from sim import Sim
import terms as T

G = 'cgsolve.c'
T.LINEAR['Aop'] = True
P.DOMLEN['Aop'] = lambda s: [s[0]]


def Aop(N, v):
    return vop('Aop', (N,), (v,))


def ax_callback(N, data):
    """the user operator: writes A*x, keeps everything else"""
    def f(e, args, node):
        n, x, y, d = args
        e.obl('mpre', eq(as_int(n), N), 'operator is called with the length of the system', node)
        e.obl('pre', TRUE if isinstance(d, Ptr) and d.obj is data.obj else FALSE, 'operator is given its own data', node)
        if x.obj is y.obj:
            e.obl('mpre', FALSE, 'operator input and output are distinct', node)
        v = e.rview(x, N, node, 'operator input')
        e.wview(y, N, Aop(N, v), node, 'operator output')
        return None
    return f


def cg_sim(pre, N, x0, b, mi, tol, M=None):
    bb = dot(b, b, N)

    def pc(r):
        return r if M is None else vlam(lambda k: mul(app(r, k), app(M, k)))
    r0 = vlin((1, b), (-1, Aop(N, x0)))

    def res(r):
        return sqrt(div(dot(r, r, N), bb))

    def step(t, s):
        q = Aop(N, s['p'])
        al = div(s['delta'], dot(s['p'], q, N))
        x = vlin((1, s['x']), (al, s['p']))
        r = vlin((1, s['r']), (neg(al), q))
        z = pc(r)
        de = dot(r, z, N)
        p = vlin((1, z), (div(de, s['delta']), s['p']))
        rr = res(r)
        c = lt(rr, s['best'])
        bx = s['bestx']
        return dict(x=x, r=r, p=p, delta=de, best=ite(c, rr, s['best']), bestx=vlam(lambda k: ite(c, app(x, k), app(bx, k)))), lt(rr, tol)
    z0 = pc(r0)
    S = Sim(pre, dict(x=N, r=N, p=N, bestx=N), ['delta', 'best'], dict(x=x0, r=r0, p=z0, bestx=x0, delta=dot(r0, z0, N), best=res(r0)), step, mi,
            sp=(N, mi, tol), vp=(x0, b) + ((M,) if M is not None else ()))
    S.resf = res
    return S


def params(precond):
    def dwork(e, vals):
        n = 5 if precond else 4
        o = Obj('Dwork', 'ptrs', None, I(n))
        for i in range(n):
            w = e.new_arr('Dwork%d' % i, vals['N'], aligned=True, init=False)
            e.st.cells[(o, (i,))] = Ptr(w)
        return Ptr(o)

    def data(e, vals):
        o = Obj('AX_data', 'cells')
        return Ptr(o)

    def result(e, vals):
        o = Obj('cg_result', 'cells', rtype='l1c_CgResults')
        e.st.cells[(o, ('cgres',))] = D(var('cgres0', 'R'))
        e.st.cells[(o, ('cgiter',))] = var('cgiter0', 'I')
        return Ptr(o)

    def pars(e, vals):
        mi, vb = e.fresh_int('max_iter', 0, 2**31 - 2), e.fresh_int('verbose', -2**31, 2**31 - 1)
        return SV({('verbose',): vb, ('max_iter',): mi, ('tol',): D(var('tol', 'R'))})
    r = [('N', 'int', 1), ('x', 'arr', 'N', 'io'), ('b', 'arr', 'N', 'in')] + ([('M_inv_diag', 'arr', 'N', 'in')] if precond else []) + [
        ('Dwork', 'val', dwork), ('_data', 'val', data), ('AX_data', 'val', data), ('cg_result', 'val', result), ('cg_params', 'val', pars)]
    return r


class CG(Contract):
    def __init__(self, name, precond):
        self.precond = precond
        ps = params(precond)
        i = [p[0] for p in ps].index('_data')
        ps[i] = ('AX_func', 'val', lambda e, vals: None)
        Contract.__init__(self, name, G, ps, self.eff, pre=lambda e, A: ne(self.bb(e, A), R(0)))

    def bb(self, e, A):
        b = e.view(A['b'], A['N'])
        return dot(b, b, A['N'])

    def default_setup(self, e):
        A = Contract.default_setup(self, e)
        i = [p[0] for p in self.params].index('AX_func')
        A[i] = FnV(ax_callback(A[0], A[i + 1]))
        return A

    def sim(self, e, A):
        M = e.view(A['M_inv_diag'], A['N']) if self.precond else None
        pr = A['cg_params'].f
        return cg_sim('pcg' if self.precond else 'cg', A['N'], e.view(A['x'], A['N']), e.view(A['b'], A['N']), pr[('max_iter',)], pr[('tol',)].t, M)

    def eff(self, e, A, n):
        S = self.sim(e, A)
        K = S.Kterm()
        e.wview(A['x'], A['N'], S.sym('bestx', K), n)
        o = A['cg_result'].obj
        e.st.cells[(o, ('cgres',))] = D(S.sym('best', K))
        e.st.cells[(o, ('cgiter',))] = K
        return I(0)

    def apply(self, e, args, node):
        """for callers with an operator of their own: what the recurrence lemmas give (the operator must be linear)"""
        A = self.named(args)
        N, x, b = as_int(A['N']), A['x'], A['b']
        pr = A['cg_params'].f
        ws = [e.st.cells[(A['Dwork'].obj, (self.shift(A['Dwork']) + i,))] for i in range(5 if self.precond else 4)]
        objs = [x.obj, b.obj] + [w.obj for w in ws] + ([A['M_inv_diag'].obj] if self.precond else [])
        e.obl('mpre', TRUE if len(set(objs)) == len(objs) else FALSE, '%s: arrays are distinct' % self.name, node)
        for q in [x, b] + ws:
            e.obl('align', TRUE if q.obj.aligned and is_const(q.off) == 0 else FALSE, '%s: arrays are 64-byte aligned' % self.name, node)
        e.obl('mpre', ge(N, I(1)), '%s: N >= 1' % self.name, node)
        bv = e.rview(b, N, node, 'b')
        bb = dot(bv, bv, N)
        e.obl('pre', ne(bb, R(0)), '%s: b is not zero' % self.name, node)
        mi = as_int(pr[('max_iter',)])
        e.obl('pre', ge(mi, I(0)), '%s: max_iter >= 0' % self.name, node)
        for w in ws:
            e.wview(w, N, fresh_vec('c!cgw'), node)

        def res():
            e.call_fn(A['AX_func'].key, [N, x, ws[3], A['AX_data']], node)
            d = vlin((1, bv), (-1, e.view(ws[3], N)))
            return sqrt(div(dot(d, d, N), bb))
        e.rview(x, N, node, 'x')
        r0 = res()
        e.wview(x, N, fresh_vec('c!cgx'), node)
        r1 = res()
        for w in ws:
            e.wview(w, N, fresh_vec('c!cgw'), node)
        e.assume(le(r1, r0))
        c = A['cg_result']
        e.st.cells[(c.obj, c.path + ('cgres',))] = D(r1)
        e.st.cells[(c.obj, c.path + ('cgiter',))] = e.fresh_int('c!cgiter', 0, mi)
        return I(0)

    def shift(self, p):
        k = is_const(p.off)
        if k is None:
            raise Unsupported('work array position')
        return int(k)

    def before(self, e, args):
        e.ghost_specs.append(self.sim(e, self.named(args)))

    def work_objs(self, args):
        A = self.named(args)
        return {o for o in self._st.arrs if o.name.startswith('Dwork')}

    def check(self, e, s0, args, outs):
        self._st = s0
        Contract.check(self, e, s0, args, outs)


for nm, pcn in (('l1c_cgsolve', False), ('l1c_cgsolve_diag_precond', True)):
    CG(nm, pcn)


# ---------------------------------------------------------------- lemmas over the recurrence
def lemma_cg(precond):
    def go(e):
        N, mi, t = var('N', 'I'), var('max_iter', 'I'), var('t', 'I')
        x0, b = vatom('x0'), vatom('b')
        M = vatom('Minv') if precond else None
        S = cg_sim('pcg' if precond else 'cg', N, x0, b, mi, var('tol', 'R'), M)
        e.assume(and_(ge(N, I(1)), ge(t, I(0)), gt(dot(b, b, N), R(0))))
        s = S.state(t)
        nxt, stop = S.step(t, s)
        i0 = S.init
        tr = lambda x: vlin((1, b), (-1, Aop(N, x)))

        def same(what, u, v):
            e.obl('func', forall(N, lambda k: eq(app(u, k), app(v, k))), what)
        same('lemma: the recurrence residual starts as b - A x', i0['r'], tr(i0['x']))
        e.obl('func', eq(i0['best'], S.resf(tr(i0['bestx']))), 'lemma: the reported residual starts as ||b-Ax||/||b|| of the kept iterate')
        e.obl('func', eq(i0['best'], S.resf(i0['r'])), 'lemma: the reported residual starts as that of the starting point')
        st0 = e.st
        # step: r(t)=b-Ax(t) gives r(t+1)=b-Ax(t+1)
        e.st = st0.copy()
        e.st.pc += (('f', forall(N, lambda k: eq(app(s['r'], k), app(tr(s['x']), k)))),)
        same('lemma: one step keeps r = b - A x', nxt['r'], tr(nxt['x']))
        # best bookkeeping, both branches
        c = lt(S.resf(nxt['r']), s['best'])
        for val in (True, False):
            e.st = st0.copy()
            e.assume(c if val else not_(c))
            kept = nxt['x'] if val else s['bestx']
            same('lemma: the kept iterate is the newest one exactly when it improves', vlam(lambda k: P.subst_ites(app(nxt['bestx'], k), c, val)), kept)
            e.obl('func', eq(P.subst_ites(nxt['best'], c, val), S.resf(nxt['r']) if val else s['best']), 'lemma: the reported residual follows the kept iterate')
        e.st = st0.copy()
        e.obl('func', le(nxt['best'], s['best']), 'lemma: the reported residual never increases')
        e.obl('func', le(nxt['best'], S.resf(nxt['r'])), 'lemma: the reported residual is at most that of every iterate visited')
        # exact line search and conjugacy of one step
        q = Aop(N, s['p'])
        z = s['r'] if not precond else vlam(lambda k: mul(app(s['r'], k), app(M, k)))
        rn = nxt['r']
        e.assume(ne(dot(s['p'], q, N), R(0)))
        e.assume(eq(s['delta'], dot(s['r'], s['p'], N)))
        e.obl('func', eq(dot(s['p'], rn, N), R(0)), 'lemma: the new residual is orthogonal to the search direction (exact minimising length)')
    return go


Lemma('lemma_cg', lemma_cg(False))
Lemma('lemma_pcg', lemma_cg(True))
