"""Contracts of l1c_math.c and vcl_math.cpp"""
from contract import *

M = 'l1c_math.c'


def rv(e, A, nm, N, node):
    return e.rview(A[nm], N, node, nm)


def n0(N):
    return N


def _daxpby(e, A, n):
    N, x, y = A['N'], rv(e, A, 'x', A['N'], n), rv(e, A, 'y', A['N'], n)
    e.wview(A['y'], N, vlin((A['alpha'].t, x), (A['beta'].t, y)), n, 'y')


Contract('__l1c_daxpby', M, [('N', 'int', 0), ('alpha', 'real'), ('x', 'arr', 'N', 'in'), ('beta', 'real'), ('y', 'arr', 'N', 'io')], _daxpby)


def _init(e, A, n):
    al = A['alpha'].t
    e.wview(A['x'], A['N'], vlam(lambda k: al), n, 'x')


Contract('l1c_init_vec', M, [('N', 'int', 0), ('x', 'arr', 'N', 'out'), ('alpha', 'real')], _init)


def _mul(e, A, n):
    x, y = rv(e, A, 'x', A['N'], n), rv(e, A, 'y', A['N'], n)
    e.wview(A['z'], A['N'], vlam(lambda k: mul(app(x, k), app(y, k))), n, 'z')


Contract('l1c_dxmuly_z', M, [('N', 'int', 0), ('x', 'arr', 'N', 'in'), ('y', 'arr', 'N', 'in'), ('z', 'arr', 'N', 'out')], _mul)


def _daxpby_z(e, A, n):
    x, y = rv(e, A, 'x', A['N'], n), rv(e, A, 'y', A['N'], n)
    e.wview(A['z'], A['N'], vlin((A['alpha'].t, x), (A['beta'].t, y)), n, 'z')


Contract('l1c_daxpby_z', M, [('N', 'int', 0), ('alpha', 'real'), ('x', 'arr', 'N', 'in'), ('beta', 'real'), ('y', 'arr', 'N', 'in'), ('z', 'arr', 'N', 'out')], _daxpby_z)


def _daxpy_z(e, A, n):
    x, y = rv(e, A, 'x', A['N'], n), rv(e, A, 'y', A['N'], n)
    e.wview(A['z'], A['N'], vlin((A['alpha'].t, x), (1, y)), n, 'z')


Contract('l1c_daxpy_z', M, [('N', 'int', 0), ('alpha', 'real'), ('x', 'arr', 'N', 'in'), ('y', 'arr', 'N', 'in'), ('z', 'arr', 'N', 'out')], _daxpy_z)

# ---- reductions
Contract('l1c_dnorm1', M, [('N', 'int', 0), ('x', 'arr', 'N', 'in')],
         lambda e, A, n: D(sum_(I(0), A['N'], lambda k, x=rv(e, A, 'x', A['N'], n): tabs(app(x, k)))))
Contract('l1c_dsum', M, [('N', 'int', 0), ('x', 'arr', 'N', 'in')],
         lambda e, A, n: D(sum_(I(0), A['N'], lambda k, x=rv(e, A, 'x', A['N'], n): app(x, k))))


def _logsum(e, A, n):
    x = rv(e, A, 'x', A['N'], n)
    return D(sum_(I(0), A['N'], lambda k: uf('log', 'R', mul(A['alpha'].t, app(x, k)))), logbad(e, A['N'], A['alpha'].t, x) if e.lognan else FALSE)


def logbad(e, N, al, x):
    """the sum of logarithms is not finite (NaN or infinite) exactly when some argument is not positive"""
    bad, at = uf('log.nonfinite', 'B', N, al, x), uf('log.nonfinite.at', 'I', N, al, x)
    e.assume(forall(N, lambda k: or_(bad, gt(mul(al, app(x, k)), R(0)))))
    e.assume(or_(not_(bad), and_(ge(at, I(0)), lt(at, N), le(mul(al, app(x, at)), R(0)))))
    return bad


Contract('l1c_dlogsum', M, [('N', 'int', 0), ('alpha', 'real'), ('x', 'arr', 'N', 'in')], _logsum)


def sqd(x, y, N):
    d = vlin((1, x), (-1, y))
    return dot(d, d, N)


def _rel(e, A, n):
    x, y = rv(e, A, 'x', A['N'], n), rv(e, A, 'y', A['N'], n)
    yy = dot(y, y, A['N'])
    return D(sqrt(div(sqd(x, y, A['N']), yy)), eq(yy, R(0)))


Contract('l1c_dnrm2_rel_err', M, [('N', 'int', 0), ('x', 'arr', 'N', 'in'), ('y', 'arr', 'N', 'in')], _rel)


def _err(e, A, n):
    x, y = rv(e, A, 'x', A['N'], n), rv(e, A, 'y', A['N'], n)
    return D(sqrt(sqd(x, y, A['N'])))


Contract('l1c_dnrm2_err', M, [('N', 'int', 0), ('x', 'arr', 'N', 'in'), ('y', 'arr', 'N', 'in')], _err)


def _max(e, A, n):
    N = A['n']
    x = rv(e, A, 'x', N, n)
    return D(range_ext('maxr', I(1), N, app(x, I(0)), lambda k: app(x, k)), le(N, I(0)))


Contract('l1c_max_vec', M, [('n', 'int', None), ('x', 'arr', 'n', 'in')], _max)


def _abs(e, A, n):
    x = rv(e, A, 'x', A['n'], n)
    e.wview(A['y'], A['n'], vlam(lambda k: tabs(app(x, k))), n, 'y')


c = Contract('l1c_abs_vec', M, [('n', 'int', 0), ('x', 'arr', 'n', 'in'), ('y', 'arr', 'n', 'out')], _abs)


def alias_abs(e):
    A = c.default_setup(e)
    e.st.arrs.pop(A[2].obj)
    e.st.init.pop(A[2].obj)
    A[2] = A[1]
    return A


c.scenarios.append(alias_abs)
c.alias_ok = ((1, 2),)

V = 'vcl_math.cpp'
Contract('vcl_sum', V, [('N', 'int', 0), ('x', 'arr', 'N', 'in')],
         lambda e, A, n: D(sum_(I(0), A['N'], lambda k, x=rv(e, A, 'x', A['N'], n): app(x, k))))
Contract('vcl_logsum', V, [('N', 'int', 0), ('alpha', 'real'), ('x', 'arr', 'N', 'in')], _logsum)


def _fma(e, A, n):
    x, y, z = rv(e, A, 'x', A['N'], n), rv(e, A, 'y', A['N'], n), rv(e, A, 'z', A['N'], n)
    e.wview(A['z'], A['N'], vlam(lambda k: mul(app(x, k), app(y, k)) + app(z, k)), n, 'z')


Contract('vcl_dxMy_pz', V, [('N', 'int', 0), ('x', 'arr', 'N', 'in'), ('y', 'arr', 'N', 'in'), ('z', 'arr', 'N', 'io')], _fma)
