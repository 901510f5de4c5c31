"""Contracts of TV.c: difference operators as vector operators with a pointwise definition (DEFS)."""
from contract import *
import terms as T

F = 'TV.c'
DEFS = {}


def col(k, m):
    return emod(k, m)


def d_Dx(n, m, a, X, k):
    return ite(lt(col(k, m), m - I(1)), mul(a, app(X, k + I(1)) - app(X, k)), R(0))


def d_DxT(n, m, a, X, k):
    c = col(k, m)
    return mul(a, ite(ge(c, I(1)), app(X, k - I(1)), R(0)) - ite(lt(c, m - I(1)), app(X, k), R(0)))


def d_DxTDx(n, m, a, X, k):
    c = col(k, m)
    return mul(mul(a, a), ite(ge(c, I(1)), app(X, k) - app(X, k - I(1)), R(0)) + ite(lt(c, m - I(1)), app(X, k) - app(X, k + I(1)), R(0)))


def d_Dy(n, m, a, X, k):
    return ite(lt(k, (n - I(1)) * m), mul(a, app(X, k + m) - app(X, k)), R(0))


def d_DyT(n, m, a, X, k):
    return mul(a, ite(ge(k, m), app(X, k - m), R(0)) - ite(lt(k, (n - I(1)) * m), app(X, k), R(0)))


def d_DyTDy(n, m, a, X, k):
    return mul(mul(a, a), ite(ge(k, m), app(X, k) - app(X, k - m), R(0)) + ite(lt(k, (n - I(1)) * m), app(X, k) - app(X, k + m), R(0)))


for nm, f in (('Dx', d_Dx), ('DxT', d_DxT), ('DxTDx', d_DxTDx), ('Dy', d_Dy), ('DyT', d_DyT), ('DyTDy', d_DyTDy)):
    DEFS['TV.' + nm] = f
    T.LINEAR['TV.' + nm] = True
    P.DOMLEN['TV.' + nm] = lambda s: [s[0] * s[1]]


def unfold(*names):
    for nm in names:
        if nm == 'shrink':
            import s_breg
            T.UNFOLD[nm] = lambda v, k: s_breg.shrink_term(app(v.args[2][0], k), v.args[1][0])
            continue
        f = DEFS[nm]
        T.UNFOLD[nm] = lambda v, k, f=f: f(v.args[1][0], v.args[1][1], v.args[1][2], v.args[2][0], k)


def tvop(nm, n, m, a, X):
    return vop('TV.' + nm, (n, m, a), (X,))


def mk_contract(nm):
    def eff(e, A, node):
        n, m, a = A['n'], A['m'], A['alpha'].t
        X = e.rview(A['X'], n * m, node, 'X')
        v = tvop(nm, n, m, a, X)
        e.wview(A['Y'], n * m, v, node, nm)
    c = Contract('l1c_' + nm, F, [('n', 'int', 2), ('m', 'int', 2), ('alpha', 'real'), ('X', 'arru', lambda A: A['n'] * A['m'], 'in'),
                                  ('Y', 'arru', lambda A: A['n'] * A['m'], 'out')], eff,
                 pre=lambda e, A: le(A['n'] * A['m'], I(2**31 - 1)))
    c.unfold = ['TV.' + nm]
    return c


for nm in ('Dx', 'DxT', 'DxTDx', 'Dy', 'DyT', 'DyTDy'):
    mk_contract(nm)


# ---- lemmas over the contracts
def lemma_adjoint(nm):
    def go(e):
        n, m, a = var('n', 'I'), var('m', 'I'), var('alpha', 'R')
        k, l = var('k', 'I'), var('l', 'I')
        e.assume(and_(ge(n, I(2)), ge(m, I(2)), ge(k, I(0)), lt(k, n * m), ge(l, I(0)), lt(l, n * m)))
        el = vlam(lambda j: ite(eq(j, l), R(1), R(0)))
        ek = vlam(lambda j: ite(eq(j, k), R(1), R(0)))
        e.obl('func', eq(DEFS['TV.' + nm](n, m, a, el, k), DEFS['TV.' + nm + 'T'](n, m, a, ek, l)),
              'lemma: matrix of %sT is the transpose of the matrix of %s (hence <%s u,v> = <u,%sT v>)' % (nm, nm, nm, nm))
    return go


def lemma_comp(nm):
    def go(e):
        n, m, a, k = var('n', 'I'), var('m', 'I'), var('alpha', 'R'), var('k', 'I')
        e.assume(and_(ge(n, I(2)), ge(m, I(2)), ge(k, I(0)), lt(k, n * m)))
        u = vatom('u')
        du = vlam(lambda j: DEFS['TV.' + nm](n, m, a, u, j))
        e.obl('func', eq(DEFS['TV.%sT%s' % (nm, nm)](n, m, a, u, k), DEFS['TV.%sT' % nm](n, m, a, du, k)),
              'lemma: %sT%s u = %sT(%s u)' % (nm, nm, nm, nm))
    return go


for nm in ('Dx', 'Dy'):
    Lemma('lemma_%s_adjoint' % nm, lemma_adjoint(nm))
    Lemma('lemma_%sT%s' % (nm, nm), lemma_comp(nm))
