"""Contracts of bregman.c"""
from contract import *
from s_tv import tvop, DEFS, col
import terms as T

B = 'bregman.c'
NM = lambda A: A['n'] * A['m']
fits = lambda e, A: le(A['n'] * A['m'], I(2**31 - 1))


def shrink_term(x, g):
    return ite(gt(x, g), x - g, ite(lt(x, neg(g)), x + g, R(0)))


def _shrink(e, A, n):
    N, g = A['N'], A['gamma'].t
    x = e.rview(A['x'], N, n, 'x')
    e.wview(A['d'], N, vop('shrink', (g,), (x,)), n, 'd')


P.DOMLEN['shrink'] = lambda s: [None]
DEFS['shrink'] = None
c = Contract('breg_shrink1', B, [('N', 'int', 0), ('x', 'arr', 'N', 'in'), ('d', 'arr', 'N', 'out'), ('gamma', 'real')], _shrink,
             pre=lambda e, A: ge(A['gamma'].t, R(0)))
c.unfold = ['shrink']


def _mxpy(e, A, n):
    x, y = e.rview(A['x'], A['N'], n), e.rview(A['y'], A['N'], n)
    e.wview(A['z'], A['N'], vlin((-1, x), (1, y)), n)


Contract('breg_mxpy_z', B, [('N', 'int', 0), ('x', 'arr', 'N', 'in'), ('y', 'arr', 'N', 'in'), ('z', 'arr', 'N', 'out')], _mxpy)


def _hess(e, A, n):
    N = NM(A)
    x = e.rview(A['x'], N, n)
    a, b = tvop('DyTDy', A['n'], A['m'], R(1), x), tvop('DxTDx', A['n'], A['m'], R(1), x)
    e.wview(A['dwork1'], N, vatom('?w1'), n)
    e.wview(A['dwork2'], N, vatom('?w2'), n)
    e.st.arrs[A['dwork1'].obj] = a
    e.st.arrs[A['dwork2'].obj] = b
    e.wview(A['y'], N, vlin((A['mu'].t, x), (A['lambda'].t, a), (A['lambda'].t, b)), n)


P2 = [('n', 'int', 2), ('m', 'int', 2)]
c = Contract('breg_hess_eval', B, P2 + [('x', 'arru', NM, 'in'), ('y', 'arru', NM, 'out'), ('mu', 'real'), ('lambda', 'real'),
                                        ('dwork1', 'arru', NM, 'out'), ('dwork2', 'arru', NM, 'out')], _hess, pre=fits)
c.work = ('dwork1', 'dwork2')


def deg(n, m, k):
    cc = col(k, m)
    return (ite(ge(cc, I(1)), R(1), R(0)) + ite(lt(cc, m - I(1)), R(1), R(0)) + ite(ge(k, m), R(1), R(0)) + ite(lt(k, (n - I(1)) * m), R(1), R(0)))


def _hdiag(e, A, n):
    nn, m, mu, la = A['n'], A['m'], A['mu'].t, A['lambda'].t
    e.wview(A['D'], NM(A), vlam(lambda k: div(R(1), mu + mul(la, deg(nn, m, k)))), n)


posd = lambda e, A: and_(fits(e, A), ne(A['mu'].t + scale(A['lambda'].t, 2), R(0)), ne(A['mu'].t + scale(A['lambda'].t, 3), R(0)), ne(A['mu'].t + scale(A['lambda'].t, 4), R(0)))
Contract('hess_inv_diag', B, P2 + [('mu', 'real'), ('lambda', 'real'), ('D', 'arru', NM, 'out')], _hdiag, pre=posd)


def nbrs(n, m, k, prev, nxt):
    """sum over the 4-neighbourhood: predecessors from prev, successors from nxt"""
    cc = col(k, m)
    return (ite(ge(cc, I(1)), app(prev, k - I(1)), R(0)) + ite(lt(cc, m - I(1)), app(nxt, k + I(1)), R(0)) +
            ite(ge(k, m), app(prev, k - m), R(0)) + ite(lt(k, (n - I(1)) * m), app(nxt, k + m), R(0)))


def _jacobi(e, A, n):
    nn, m, la, N = A['n'], A['m'], A['lambda'].t, NM(A)
    u, rhs, Dv = e.rview(A['uk'], N, n), e.rview(A['rhs'], N, n), e.rview(A['D'], N, n)
    w = vlam(lambda k: app(rhs, k) + mul(la, nbrs(nn, m, k, u, u)))
    e.wview(A['dwork'], N, w, n)
    e.wview(A['uk'], N, vlam(lambda k: mul(app(Dv, k), app(w, k))), n)


Contract('breg_anis_jacobi', B, P2 + [('uk', 'arr', NM, 'io'), ('dwork', 'arr', NM, 'out'), ('rhs', 'arr', NM, 'in'), ('D', 'arr', NM, 'in'), ('lambda', 'real')],
         _jacobi, pre=fits)


def gs_vec(n, m, mu, la, u, rhs):
    return vop('GS', (n, m, mu, la), (u, rhs))


P.DOMLEN['GS'] = lambda s: [s[0] * s[1], s[0] * s[1]]


def gs_eqn(n, m, mu, la, u, rhs, k):
    """defining equation of the Gauss-Seidel sweep at element k (guard, expression that vanishes)"""
    G = gs_vec(n, m, mu, la, u, rhs)
    return and_(ge(k, I(0)), lt(k, n * m)), mul(app(G, k), mu + mul(la, deg(n, m, k))) - app(rhs, k) - mul(la, nbrs(n, m, k, G, u))


def _gs(e, A, n):
    nn, m, mu, la, N = A['n'], A['m'], A['mu'].t, A['lambda'].t, NM(A)
    u, rhs = e.rview(A['u'], N, n), e.rview(A['rhs'], N, n)
    e.wview(A['u'], N, gs_vec(nn, m, mu, la, u, rhs), n)


c = Contract('breg_anis_guass_seidel', B, P2 + [('u', 'arru', NM, 'io'), ('rhs', 'arru', NM, 'in'), ('mu', 'real'), ('lambda', 'real')], _gs, pre=posd)


def gs_before(e, args):
    n, m, u, rhs, mu, la = args
    u0, r0 = e.st.arrs[u.obj], e.st.arrs[rhs.obj]
    u.obj.hint = (gs_vec(n, m, mu.t, la.t, u0, r0), u0, lambda k: gs_eqn(n, m, mu.t, la.t, u0, r0, k))
    e.st.cells[(u.obj, ('$F',))] = I(0)


c.before = gs_before


def rhs_vec(n, m, mu, la, f, dx, bx, dy, by):
    a = tvop('DxT', n, m, la, vlin((1, dx), (-1, bx)))
    b = tvop('DyT', n, m, la, vlin((1, dy), (-1, by)))
    return vlin((mu, f), (1, a), (1, b))


def _rhs(e, A, n):
    N = NM(A)
    v = {k: e.rview(A[k], N, n) for k in ('f', 'dx', 'bx', 'dy', 'by')}
    e.wview(A['dwork1'], N, vlin((1, v['dx']), (-1, v['bx'])), n)
    e.wview(A['dwork2'], N, vlin((A['mu'].t, v['f']), (1, tvop('DyT', A['n'], A['m'], A['lambda'].t, vlin((1, v['dy']), (-1, v['by']))))), n)
    e.wview(A['rhs'], N, rhs_vec(A['n'], A['m'], A['mu'].t, A['lambda'].t, v['f'], v['dx'], v['bx'], v['dy'], v['by']), n)


c = Contract('breg_anis_rhs', B, P2 + [(k, 'arr', NM, 'in') for k in ('f', 'dx', 'bx', 'dy', 'by')] + [('rhs', 'arr', NM, 'out'), ('mu', 'real'), ('lambda', 'real'),
                                                                                                     ('dwork1', 'arr', NM, 'out'), ('dwork2', 'arr', NM, 'out')], _rhs, pre=fits)
c.work = ('dwork1', 'dwork2')
c = CONTRACTS['breg_anis_jacobi']
c.work = ('dwork',)

# ---- the driver (C05): a specified recurrence, stop test and iteration limit
from sim import Sim
OOM = I(8)


class DriverContract(Contract):
    """functions that allocate: outcome is either out-of-memory or the specified effect"""
    oom = None

    def check(self, e, s0, args, outs):
        for oc in outs:
            nv = [o.nullvar for o in oc.st.live if o not in s0.live and getattr(o, 'nullvar', None) is not None]
            self.oom = or_(*nv)
            try:
                Contract.check(self, e, s0, args, [oc])
            finally:
                self.oom = None

    def is_oom(self):
        return self.oom if self.oom is not None else fresh('null', 'B')


def breg_sim(n, m, f, mu, tol, mi, mj):
    N, la = n * m, scale(mu, 2)

    def step(t, s):
        rhs = rhs_vec(n, m, mu, la, f, s['dx'], s['bx'], s['dy'], s['by'])
        u = loops.iterate(gs_vec(n, m, mu, la, s['u'], rhs), s['u'], s['u'], tmax(mj, I(0)))
        ex = vlin((1, tvop('Dx', n, m, R(1), u)), (1, s['bx']))
        ey = vlin((1, tvop('Dy', n, m, R(1), u)), (1, s['by']))
        g = div(R(1), la)
        dx, dy = vop('shrink', (g,), (ex,)), vop('shrink', (g,), (ey,))
        yy = dot(s['up'], s['up'], N)
        d = vlin((1, u), (-1, s['up']))
        err = sqrt(div(dot(d, d, N), yy))
        return dict(u=u, up=u, dx=dx, dy=dy, bx=vlin((1, ex), (-1, dx)), by=vlin((1, ey), (-1, dy))), and_(ne(yy, R(0)), lt(err, tol))
    z = vconst(0)
    return Sim('breg', dict(u=N, up=N, dx=N, dy=N, bx=N, by=N), [], dict(u=f, up=z, dx=z, dy=z, bx=z, by=z), step, mi, sp=(n, m, mu, tol, mi, mj), vp=(f,))


def _breg(e, A, n):
    N = NM(A)
    f, u0 = e.rview(A['f'], N, n), e.rview(A['uk'], N, n)
    S = breg_sim(A['n'], A['m'], f, A['mu'].t, A['tol'].t, A['max_iter'], A['max_jac_iter'])
    c = CONTRACTS['l1c_breg_anistropic_TV']
    oom = c.is_oom()
    new = S.sym('u', S.Kterm())
    e.wview(A['uk'], N, vlam(lambda k: ite(oom, app(u0, k), app(new, k))), n)
    return ite(oom, OOM, I(0))


c = DriverContract('l1c_breg_anistropic_TV', B, P2 + [('uk', 'arr', NM, 'io'), ('f', 'arr', NM, 'in'), ('mu', 'real'), ('tol', 'real'),
                                                      ('max_iter', 'int', None), ('max_jac_iter', 'int', None)], _breg,
                   pre=lambda e, A: and_(fits(e, A), gt(A['mu'].t, R(0)), lt(A['max_iter'], I(2**31 - 1)), lt(A['max_jac_iter'], I(2**31 - 1))))


def breg_before(e, args):
    n, m, uk, f, mu, tol, mi, mj = args
    e.ghost_specs.append(breg_sim(n, m, e.st.arrs[f.obj], mu.t, tol.t, mi, mj))


c.before = breg_before
c.extra_files = ['TV.c', 'l1c_math.c', 'l1c_memory.c']
