from base import *


def Dx(n, m, a, u):
    U = u.reshape(n, m)
    r = np.zeros((n, m))
    r[:, :-1] = a * (U[:, 1:] - U[:, :-1])
    return r.ravel()


def DxT(n, m, a, v):
    V = v.reshape(n, m)
    r = np.zeros((n, m))
    r[:, :-1] -= V[:, :-1]
    r[:, 1:] += V[:, :-1]
    return (a * r).ravel()


def Dy(n, m, a, u):
    return Dx(m, n, a, u.reshape(n, m).T.copy().ravel()).reshape(m, n).T.copy().ravel()


def DyT(n, m, a, u):
    return DxT(m, n, a, u.reshape(n, m).T.copy().ravel()).reshape(m, n).T.copy().ravel()


TVF = {'Dx': Dx, 'DxT': DxT, 'Dy': Dy, 'DyT': DyT,
       'DxTDx': lambda n, m, a, u: DxT(n, m, a, Dx(n, m, a, u)), 'DyTDy': lambda n, m, a, u: DyT(n, m, a, Dy(n, m, a, u))}


@oracle('C03')
def stencils(lib, rng):
    n, m = (int(rng.integers(2, 7)), int(rng.integers(2, 7))) if rng.random() < .6 else (int(rng.integers(2, 25)), int(rng.integers(2, 25)))
    a = float(rvec(rng, 1)[0]) if rng.random() < .8 else 1.0
    nm = list(TVF)[rng.integers(0, 6)]
    x, z = Arr(rvec(rng, n * m)).save(), Arr(n * m)
    lib.f('l1c_' + nm, None, I_, I_, D_, P_, P_)(n, m, a, x.p, z.p)
    e = TVF[nm](n, m, a, x.saved)
    need(x.ok() and z.ok(), 'l1c_%s(n=%d,m=%d) wrote outside its output' % (nm, n, m))
    need(x.same(), 'l1c_%s modified its input' % nm)
    need(close(z.v, e, 1e-11, 1e-12), 'l1c_%s(n=%d,m=%d,alpha=%r): wrong output for %s' % (nm, n, m, a, x.saved.tolist()[:30]))
