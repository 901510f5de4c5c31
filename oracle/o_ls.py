from base import *

CB2 = C.CFUNCTYPE(D_, P_, P_, P_)
CB1 = C.CFUNCTYPE(D_, P_, P_)


LSP, LSS = layout('LSParams'), layout('LSStat')


@oracle('C06')
def ls(lib, rng):
    two = rng.random() < .5
    n = int(rng.integers(1, 12))
    s, beta, alpha, g = float(rng.uniform(.1, 3)), float(rng.choice([.5, .9, .99, .1])), float(rng.choice([0, .01, .3])), float(rng.choice([-1, -5, .1, 0, 2]))
    f0 = float(rng.normal())
    acc = int(rng.choice([0, 1, 2, 5, 30, 31, 32, 40]))
    rnd = rng.random(45)
    junk = rng.normal(size=45) * 3
    over = rng.random() < .5
    vs = ['x', 'u'] if two else ['x']
    X = [Arr(rng.normal(size=n)).save() for _ in vs]
    Dd = [Arr(rng.normal(size=n)).save() for _ in vs]
    F = Arr([f0])
    pts, vals = [], []

    def val(j):
        lim = f0 + alpha * s * beta ** j * g
        if j >= acc:
            return lim - abs(junk[j % 45]) * (rnd[j % 45] > .3) - 1e-9
        return float('nan') if rnd[j % 45] < .3 else lim + 1e-6 + abs(junk[j % 45])

    def cb(*a):
        j = len(pts)
        pts.append([np.ctypeslib.as_array((C.c_double * n).from_address(p)).copy() for p in a[1:]])
        v = val(j)
        vals.append(v)
        if over:
            F.v[0] = junk[j % 45]
        return v
    W = [Arr(n) for _ in vs]
    par = mkstruct('LSParams', alpha=alpha, beta=beta, s=s)
    if two:
        pw = (C.c_void_p * 2)(*[w.p.value for w in W])
        f = CB2(cb)
        r = lib.f('l1c_linesearch_xu', LSS, I_, P_, P_, P_, P_, P_, D_, P_, CB2, LSP, P_)(n, X[0].p, X[1].p, Dd[0].p, Dd[1].p, F.p, g, None, f, par, C.cast(pw, C.c_void_p))
    else:
        f = CB1(cb)
        r = lib.f('l1c_linesearch', LSS, I_, P_, P_, P_, D_, P_, CB1, LSP, P_)(n, X[0].p, Dd[0].p, F.p, g, None, f, par, W[0].p)
    txt = '%s(n=%d,s=%r,beta=%r,alpha=%r,g_dot_d=%r,f0=%r, objective values returned=%s%s)' % ('l1c_linesearch_xu' if two else 'l1c_linesearch', n, s, beta, alpha, g, f0, vals, ', callback overwrites *fx0' if over else '')
    need(all(a.ok() for a in X + Dd + W + [F]) and all(a.same() for a in Dd), txt + ': frame')
    for j, p in enumerate(pts):
        for a, x, d in zip(p, X, Dd):
            need(close(a, x.saved + s * beta ** j * d.saved, 1e-9, 1e-10), txt + ': trial %d at the wrong point' % j)
    if acc < 32:
        need(r.status == 0, txt + ': fails although trial %d is acceptable' % (acc + 1))
        need(r.iter == acc + 1 and len(pts) == acc + 1, txt + ': reported trial %d after %d evaluations, expected %d' % (r.iter, len(pts), acc + 1))
        sj = s * beta ** acc
        need(close([r.step], [sj]) and close([r.flin], [f0 + alpha * sj * g]), txt + ': step %r flin %r' % (r.step, r.flin))
        need(F.v[0] == vals[-1], txt + ': stored objective %r is not that of the accepted trial' % F.v[0])
        for x, d in zip(X, Dd):
            need(close(x.v, x.saved + sj * d.saved, 1e-9, 1e-10), txt + ': returned iterate is not start + step*direction')
    else:
        need(r.status == 1, txt + ': status %d' % r.status)
        need(r.iter == 32 and len(pts) == 32, txt + ': %d reported, %d evaluated' % (r.iter, len(pts)))
        need(all(x.same() for x in X), txt + ': iterate changed on failure')
        if not over:
            need(F.v[0] == f0, txt + ': stored objective changed on failure')
