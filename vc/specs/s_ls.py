"""Contracts of linesearch.c: relational contract over the whole trial history of an arbitrary objective callback."""
from contract import *

LSF = 'linesearch.c'
fval = lambda j: uf('fval', 'R', j)
fnan = lambda j: uf('fnan', 'B', j)


def cb(e, o_g, o_f, data, xu, x0s, dxs, n, s, beta, overwrite):
    def f(e, args, node):
        j = e.st.cells[(o_g, ())]
        e.obl('pre', TRUE if isinstance(args[0], Ptr) and args[0].obj is data.obj else FALSE, 'objective is given its own data', node)
        sj = mul(s, power(beta, j))
        for nm, p, x0, d in zip(('x', 'u'), args[1:], x0s, dxs):
            v = e.rview(p, n, node, 'trial point')
            e.obl('func', forall(n, lambda k: eq(app(v, k), app(x0, k) + mul(sj, app(d, k)))),
                  'trial j evaluates the objective at %s + s*beta^j*d%s' % (nm, nm), node)
        e.st.cells[(o_g, ())] = j + I(1)
        if overwrite:
            e.st.cells[(o_f, ())] = D(uf('junk', 'R', j))
        return D(fval(j), fnan(j))
    return f


class LS(Contract):
    def __init__(self, name, two, overwrite, key=None):
        self.two, self.overwrite = two, overwrite
        Contract.__init__(self, name, LSF, [], None, scenarios=[self.setup], key=key)

    def setup(self, e):
        n = e.fresh_int('n', 0, 2**31 - 1)
        mk = lambda nm, init=True: Ptr(e.new_arr(nm, n, aligned=True, init=init))
        vs = ['x', 'u'] if self.two else ['x']
        xs, ds = [mk(v) for v in vs], [mk('d' + v) for v in vs]
        og = Obj('calls', 'cells')
        of = Obj('fx0', 'cells', rtype='double')
        e.st.cells[(og, ())] = I(0)
        f0 = var('f0', 'R')
        e.st.cells[(of, ())] = D(f0)
        s, beta, alpha, g = var('s', 'R'), var('beta', 'R'), var('alpha', 'R'), var('g_dot_d', 'R')
        data = Ptr(Obj('obj_data', 'cells'))
        if self.two:
            w = Obj('DWORK2', 'ptrs', None, I(2))
            for i in range(2):
                e.st.cells[(w, (i,))] = mk('DW%d' % i, False)
            work = Ptr(w)
        else:
            work = mk('DW0', False)
        pr = SV({('alpha',): D(alpha), ('beta',): D(beta), ('s',): D(s)})
        fn = FnV(cb(e, og, of, data, self.two, [e.st.arrs[p.obj] for p in xs], [e.st.arrs[p.obj] for p in ds], n, s, beta, self.overwrite))
        self.c = dict(n=n, xs=xs, ds=ds, og=og, of=of, f0=f0, s=s, beta=beta, alpha=alpha, g=g)
        return [n] + xs + ds + [Ptr(of), D(g), data, fn, pr, work]

    def apply(self, e, args, node):
        """for callers with an objective of their own"""
        if not self.two:
            raise Unsupported('one-variable line search at a call site')
        n, x, u, dx, du, fx0, g, data, fn, pr, work = args
        n = as_int(n)
        ws = [e.st.cells[(work.obj, (i,))] for i in (0, 1)]
        objs = [q.obj for q in (x, u, dx, du)] + [w.obj for w in ws]
        e.obl('mpre', TRUE if len(set(objs)) == 6 else FALSE, 'line search: point, direction and work arrays are distinct', node)
        for q in (x, u, dx, du, ws[0], ws[1]):
            e.obl('align', TRUE if q.obj.aligned and is_const(q.off) == 0 else FALSE, 'line search: arrays are 64-byte aligned', node)
        key = (fx0.obj, fx0.path)
        f0 = as_d(e.st.cells[key])
        e.obl('pre', not_(f0.nan), 'line search: the objective at entry is finite', node)
        xv, uv, dv, ev = (e.rview(q, n, node) for q in (x, u, dx, du))
        s, beta, alpha = (as_d(pr.f[(q,)]).t for q in ('s', 'beta', 'alpha'))
        i, ok = e.fresh_int('c!ls.iter', 1, 32), fresh('c!ls.ok', 'B')
        e.assume(or_(ok, eq(i, I(32))))
        # earlier, rejected trials
        for w in ws:
            e.wview(w, n, fresh_vec('c!ls.w'), node)
        e.call_fn(fn.key, [data] + ws, node)
        sj = mul(s, power(beta, i - I(1)))
        X, U = vlin((1, xv), (sj, dv)), vlin((1, uv), (sj, ev))
        e.wview(ws[0], n, X, node)
        e.wview(ws[1], n, U, node)
        r = as_d(e.call_fn(fn.key, [data] + ws, node))
        lim = f0.t + mul(mul(alpha, sj), as_d(g).t)
        e.assume(or_(not_(ok), not_(r.nan)))
        e.assume(or_(not_(ok), le(r.t, lim)))
        e.assume(or_(ok, r.nan, gt(r.t, lim)))
        for q, a, b in ((x, X, xv), (u, U, uv)):
            e.wview(q, n, vlam(lambda k: ite(ok, app(a, k), app(b, k))), node)
        for w in ws:
            e.wview(w, n, fresh_vec('c!ls.w'), node)
        e.st.cells[key] = merge_val(ok, D(r.t), as_d(e.st.cells[key]))
        self.applied = dict(ok=ok, nan=r.nan)
        return SV({('flin',): D(ite(ok, lim, fresh('c!ls.flin', 'R'))), ('step',): D(ite(ok, sj, fresh('c!ls.step', 'R'))), ('iter',): i, ('status',): ite(ok, I(0), I(1))})

    def check(self, e, s0, args, outs):
        c = self.c
        n = c['n']
        lim = lambda j: c['f0'] + mul(mul(c['alpha'], mul(c['s'], power(c['beta'], j))), c['g'])
        rej = lambda j: or_(fnan(j), gt(fval(j), lim(j)))
        done = []
        for oc in outs:
            r = oc.val
            if not isinstance(r, SV):
                raise Unsupported('status record')
            stt = r.f[('status',)]
            for val in (0, 1):
                e.st = oc.st.copy()
                cond = eq(as_int(stt), I(val))
                d = e.decide(cond)
                if d is False:
                    continue
                if d is not True:
                    e.assume(cond, 'c')
                    if P.sat(e.hyps(), 1) == 'unsat':
                        continue
                done.append(val)
                st = e.st
                i = as_int(e.use(r.f[('iter',)], c['og'], None))
                j = i - I(1)
                calls = as_int(st.cells[(c['og'], ())])
                if val == 0:
                    sj = mul(c['s'], power(c['beta'], j))
                    e.obl('func', and_(ge(i, I(1)), le(i, I(32))), 'success: the reported trial is between 1 and 32')
                    e.obl('func', eq(calls, i), 'success: the reported trial is the last one evaluated')
                    e.obl('func', eq(as_d(r.f[('step',)]).t, sj), 'success: step = s*beta^(iter-1)')
                    for p, d_ in zip(c['xs'], c['ds']):
                        v, v0, dv = st.arrs[p.obj], s0.arrs[p.obj], s0.arrs[d_.obj]
                        e.obl('func', forall(n, lambda k: eq(app(v, k), app(v0, k) + mul(sj, app(dv, k)))), 'success: %s = start + step*direction' % p.obj.name)
                    e.obl('func', not_(fnan(j)), 'success: the accepted objective is not NaN')
                    e.obl('func', eq_val(st.cells[(c['of'], ())], D(fval(j))), 'success: the stored objective is that of the accepted trial')
                    e.obl('func', le(fval(j), lim(j)), 'success: sufficient decrease against the objective at entry')
                    e.obl('func', eq(as_d(r.f[('flin',)]).t, lim(j)), 'success: reported linear bound')
                    e.obl('func', forall(j, rej), 'success: every earlier trial was rejected')
                else:
                    e.obl('func', eq(i, I(32)), 'failure: 32 trials are reported')
                    e.obl('func', eq(calls, I(32)), 'failure: exactly 32 trials were evaluated')
                    for p in c['xs']:
                        v, v0 = st.arrs[p.obj], s0.arrs[p.obj]
                        e.obl('func', TRUE if v is v0 else forall(n, lambda k: eq(app(v, k), app(v0, k))), 'failure: %s is what it was' % p.obj.name)
                    if not self.overwrite:
                        e.obl('func', eq_val(st.cells[(c['of'], ())], D(c['f0'])), 'failure: the stored objective is what it was')
                    e.obl('func', forall(I(32), rej), 'failure: every trial was rejected')
                for d_ in c['ds']:
                    v, v0 = st.arrs[d_.obj], s0.arrs[d_.obj]
                    e.obl('func', TRUE if v is v0 else forall(n, lambda k: eq(app(v, k), app(v0, k))), '%s is left unchanged' % d_.obj.name)
            e.st = oc.st.copy()
            e.obl('func', or_(eq(as_int(stt), I(0)), eq(as_int(stt), I(1))), 'status is 0 or 1')


LS('l1c_linesearch_xu', True, False)
LS('l1c_linesearch_xu', True, True, 'l1c_linesearch_xu.overwrite')
LS('l1c_linesearch', False, False)
LS('l1c_linesearch', False, True, 'l1c_linesearch.overwrite')
LSK = ['l1c_linesearch_xu', 'l1c_linesearch_xu.overwrite', 'l1c_linesearch', 'l1c_linesearch.overwrite']
