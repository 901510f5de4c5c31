"""Contract of l1qc_dct.c: build the transforms, start from A'b, solve on private copies, map back, tear down."""
from contract import *
import s_mem, s_xfm, s_l1qc
from s_xfm import LOG, ab, INIT, OOM
from s_l1qc import l1qc_opts

INFEAS = 2
CALL = Obj('solver call', 'cells')     # ghost: how the solver was called and what it left
GX0, GB, GX1 = (Obj('ghost ' + q, 'arr', None, None) for q in ('start', 'measurements', 'solution'))


def solver_apply(self, e, args, node):
    """caller's view of l1c_l1qc_newton: x is replaced by the solution, a result record comes back"""
    m, x, n, b, opts, ax = args
    m, n = as_int(m), as_int(n)
    e.obl('mpre', and_(ge(n, I(1)), le(n, m), le(m, I(2**30 - 1))), 'l1c_l1qc_newton: 1 <= n <= m', node)
    wellformed(e, [('x', x, m), ('b', b, n)], node, 'l1c_l1qc_newton')
    xv, bv = e.rview(x, m, node), e.rview(b, n, node)
    f = lambda q: as_d(opts.f[(q,)])
    for q, c in (('epsilon', gt(f('epsilon').t, R(0))), ('mu', gt(f('mu').t, R(1))), ('lbtol', gt(f('lbtol').t, R(0)))):
        e.obl('pre', c, 'l1c_l1qc_newton: option %s' % q, node)
    for q in ('Ax', 'Aty', 'AtAx'):
        g = ax.f.get((q,), UNDEF)
        if isinstance(g, Maybe):
            e.obl('uninit', g.cond, 'l1c_l1qc_newton: operator %s is set' % q, node)
            g = g.val
        e.obl('mpre', TRUE if isinstance(g, FnV) and getattr(g.key, 'opname', '') == q and g.key.res in e.st.live else FALSE, 'l1c_l1qc_newton: operator %s of a transform set' % q, node)
        if isinstance(g, FnV) and hasattr(g.key, 'res'):
            e.obl('live', e.st.live[g.key.res], 'the transform set is live while the solver runs', node)
            dm = dict(Ax=(m, n), Aty=(n, m), AtAx=(m, m))[q]
            e.obl('mpre', and_(eq(g.key.dims[0], dm[0]), eq(g.key.dims[1], dm[1])), 'l1c_l1qc_newton: operator %s has the dimensions of the problem' % q, node)
    res = SV({})
    for pth, ft in e.leaf_paths('l1c_LBResult'):
        res.f[pth] = D(fresh('c!' + pth[0], 'R')) if 'double' in ft else e.fresh_int('c!' + pth[0], -2**31, 2**31 - 1)
    st = as_int(res.f[('status',)])
    e.assume(or_(*[eq(st, I(q)) for q in (0, OOM, INFEAS)]))
    x1 = fresh_vec('c!solution')
    e.wview(x, m, x1, node, 'solution')
    if ('calls',) in {k[1] for k in e.st.cells if k[0] is CALL}:
        e.st.cells[(CALL, ('calls',))] = as_int(e.st.cells[(CALL, ('calls',))]) + I(1)
        e.st.cells[(CALL, ('m',))], e.st.cells[(CALL, ('n',))] = m, n
        e.st.arrs[GX0], e.st.arrs[GB], e.st.arrs[GX1] = xv, bv, x1
        for q, v in opts.f.items():
            e.st.cells[(CALL, ('opt',) + q)] = v
        for q, v in res.f.items():
            e.st.cells[(CALL, ('res',) + q)] = v
    return res


s_l1qc.Driver.apply = solver_apply


class OneCall(Contract):
    def __init__(self):
        Contract.__init__(self, 'l1qc_dct', 'l1qc_dct.c', [], None, scenarios=[self.setup])

    def setup(self, e):
        n, r, q = (e.fresh_int(x, -2**31, 2**31 - 1) for x in ('n', 'mrow', 'mcol'))
        m = r * q
        e.assume(or_(le(r, I(0)), le(q, I(0)), le(m, I(2**30 - 1)), gt(m, I(2**31 - 1))))
        e.assume(or_(le(r, I(0)), le(q, I(0)), le(n, m)))
        xo = Ptr(e.new_arr('x_out', tmax(m, I(0)), aligned=True))
        b = Ptr(e.new_arr('b', tmax(n, I(0))))
        pix = Ptr(e.new_arr('pix_idx', tmax(n, I(0)), 'I'))
        opts = l1qc_opts(e)
        f = lambda w: opts[(w,)].t
        e.assume(and_(gt(f('epsilon'), R(0)), gt(f('mu'), R(1)), gt(f('lbtol'), R(0))))
        e.assume(and_(ge(opts[('dct_mode',)], I(1)), le(opts[('dct_mode',)], I(2))))
        lb = Obj('lb_res', 'cells', rtype='l1c_LBResult')
        for p, _ in e.leaf_paths('l1c_LBResult'):
            e.st.cells[(lb, p)] = UNDEF
        e.st.cells[(LOG, ('which',))] = I(0)
        for i in range(7):
            e.st.cells[(LOG, ('a%d' % i,))] = UNDEF
        e.st.cells[(CALL, ('calls',))] = I(0)
        for k in ('m', 'n'):
            e.st.cells[(CALL, (k,))] = UNDEF
        for p, _ in e.leaf_paths('l1c_LBResult'):
            e.st.cells[(CALL, ('res',) + p)] = UNDEF
        for p in opts:
            e.st.cells[(CALL, ('opt',) + p)] = UNDEF
        for g, l in ((GX0, m), (GB, n), (GX1, m)):
            g.len = l
            e.st.arrs[g] = fresh_vec('ghost')
        self.c = dict(n=n, r=r, q=q, m=m, xo=xo.obj, b=b.obj, pix=pix, lb=lb, opts=opts)
        return [r, q, xo, n, b, pix, SV(dict(opts)), Ptr(lb)]

    def check(self, e, s0, args, outs):
        c = self.c
        n, m = c['n'], c['m']
        M, Mt, Rt = ab('Mx', m), ab('Mty', m), ab('Rty', n, m)
        got = set()
        for oc in outs:
            st = oc.st
            e.st = st.copy()
            same = lambda o, l: TRUE if st.arrs[o] is s0.arrs[o] else forall(l, lambda k: eq(app(st.arrs[o], k), app(s0.arrs[o], k)))
            e.obl('func', same(c['b'], n), 'the measurements are left unchanged')
            e.obl('func', same(c['pix'].obj, n), 'the index array is left unchanged')
            for o, l in st.live.items():
                if o not in s0.live:
                    e.obl('alloc', not_(l), '%s acquired here is released on every path' % o.name)
            v = as_int(oc.val)
            which, calls = as_int(st.cells[(LOG, ('which',))]), as_int(st.cells[(CALL, ('calls',))])
            nulls = or_(*[o.nullvar for o in st.live if o not in s0.live and getattr(o, 'nullvar', None) is not None])
            sv = st.cells[(LOG, ('a6',))]
            built = eq(which, I(3))
            for case in ('set-up fails', 'memory', 'solve'):
                e.st = st.copy()
                sok = TRUE
                if case == 'memory':
                    e.assume(nulls, 'c')
                else:
                    e.assume(and_(not_(nulls), built), 'c')
                if isinstance(sv, Term) and case != 'memory':
                    e.assume(eq(as_int(sv), I(0)) if case == 'solve' else ne(as_int(sv), I(0)), 'c')
                if P.sat(e.hyps(), 1) == 'unsat':
                    continue
                got.add(case)
                if case != 'solve':
                    e.obl('func', eq(calls, I(0)), '%s: the solver is not run' % case)
                    e.obl('func', same(c['xo'], m), '%s: the output is not written' % case)
                    if case == 'memory':
                        e.obl('func', or_(eq(v, I(OOM)), and_(eq(v, I(INIT)), ne(as_int(sv), I(0))) if isinstance(sv, Term) else FALSE), 'memory exhaustion is reported')
                    else:
                        e.obl('func', eq(v, I(INIT)), 'failure to set up the transforms is reported')
                    continue
                for i, (w, x) in enumerate((('n', n), ('rows', c['r']), ('columns', c['q']), ('mode', c['opts'][('dct_mode',)]), ('samples', c['pix']))):
                    e.obl('func', eq_val(st.cells[(LOG, ('a%d' % i,))], x), 'the transforms are set up for the given %s' % w)
                e.obl('func', eq(calls, I(1)), 'the solver is run once')
                cell = lambda *k: st.cells.get((CALL, k), UNDEF)
                if cell('m') is UNDEF:
                    continue
                e.obl('func', and_(eq_val(cell('m'), m), eq_val(cell('n'), n)), 'the solver is given the dimensions of the problem')
                b0 = s0.arrs[c['b']]
                e.obl('func', forall(n, lambda k: eq(app(st.arrs[GB], k), app(b0, k))), 'the solver is given the measurements')
                z = Mt(Rt(b0))
                e.obl('func', forall(m, lambda k: eq(app(st.arrs[GX0], k), app(z, k))), "the solver starts from A'b")
                for p, x in c['opts'].items():
                    e.obl('func', eq_val(cell('opt', *p), x), 'option %s reaches the solver' % p[0])
                for p, _ in e.leaf_paths('l1c_LBResult'):
                    e.obl('func', eq_val(st.cells[(c['lb'], p)], cell('res', *p)), 'result %s is that of the solver' % p[0])
                ss = as_int(cell('res', 'status'))
                e.obl('func', eq(v, ss), 'the status of the solver is returned')
                base = e.st
                for good in (True, False):
                    e.st = base.copy()
                    e.assume(eq(ss, I(0)) if good else ne(ss, I(0)), 'c')
                    if P.sat(e.hyps(), 1) == 'unsat':
                        continue
                    if good:
                        w = M(st.arrs[GX1])
                        e.obl('func', forall(m, lambda k: eq(app(st.arrs[c['xo']], k), app(w, k))), 'the output is the image M*eta of the solution')
                    else:
                        e.obl('func', same(c['xo'], m), 'the output is not written when the solver fails')
        if not {'set-up fails', 'memory', 'solve'} <= got:
            e.obl('func', FALSE, 'every outcome is reachable: %s' % sorted(got))


OneCall()
