"""Contracts of interfaces/python/l1cPy.c: arguments reach the solver as documented, the result is the solver's, every failure raises,
and references, buffers and transform sets are released exactly once.  The CPython and NumPy C API is modelled (assumed) here."""
from contract import *
import s_mem, s_xfm, s_onecall, s_breg, s_nesta
from s_xfm import ghost_set, ab, OOM, INIT, INVAL

F = '../interfaces/python/l1cPy.c'
PY = Obj('interpreter', 'cells')         # ghost: pending exception
CALL = Obj('library call', 'cells')      # ghost: how the library was called and what it left
GIN, GX0, GX1 = (Obj('ghost ' + q, 'arr', None, None) for q in ('measurements', 'start', 'solution'))
NAMES = {'i': 'I', 'd': 'R'}


def text(p):
    t = getattr(p.obj, 'text', None) if isinstance(p, Ptr) else None
    if t is None:
        raise Unsupported('computed string')
    return t.strip('"')


def raised(e, c):
    e.st.cells[(PY, ('api',))] = or_(e.st.cells[(PY, ('api',))], c)
    e.st.cells[(PY, ('exc',))] = or_(e.st.cells[(PY, ('exc',))], c)


def new_obj(e, name, kind, nb):
    o = Obj(name, 'cells')
    o.absent = I(0)
    o.pykind = kind
    e.st.cells[(o, ('refs',))] = ite(nb, I(0), I(1))
    raised(e, nb)
    return o


def refs(e, o):
    return as_int(e.st.cells[(o, ('refs',))])


def pyobj(e, p, n, what='object'):
    if not isinstance(p, Ptr):
        raise Unsupported('python object %r' % (p,))
    e.obl('live', not_(p.null), '%s is not null' % what, n)
    if p.obj is None:
        raise Unsupported('null python object')
    if (p.obj, ('refs',)) not in e.st.cells:
        raise Unsupported('python object %r' % (p,))
    e.obl('live', or_(p.null, gt(refs(e, p.obj), I(0))), '%s is referenced while it is used' % what, n)
    return p.obj


def bump(e, p, d, n, null_ok):
    if isinstance(p, Ptr) and p.obj is None:
        if not null_ok:
            e.obl('live', FALSE, 'reference count of a null object', n)
        return
    if not null_ok:
        o = pyobj(e, p, n)
    else:
        o = p.obj
        if (o, ('refs',)) not in e.st.cells:
            raise Unsupported('python object %r' % (p,))
        e.obl('live', or_(p.null, gt(refs(e, o), I(0))), 'object is referenced while it is used', n)
    nv = e.simp(ite(p.null, refs(e, o), refs(e, o) + I(d)))
    e.st.cells[(o, ('refs',))] = nv
    da = getattr(o, 'data', None)
    if da is not None and d < 0:
        e.st.live[da] = and_(e.st.live.get(da, TRUE), gt(nv, I(0)))


for nm, d, z in (('incref', 1, False), ('decref', -1, False), ('xincref', 1, True), ('xdecref', -1, True)):
    L.lib('l1cvc_' + nm)(lambda e, a, n, d=d, z=z: bump(e, a[0], d, n, z))


@L.lib('l1cvc_exc', 'l1cvc_none')
def _exc(e, a, n):
    o = Obj('exception type', 'cells')
    return Ptr(o)


@L.lib('PyErr_SetString', 'PyErr_Format', 'PyErr_NoMemory')
def _seterr(e, a, n):
    e.st.cells[(PY, ('exc',))] = TRUE
    return NULL


@L.lib('PyErr_Clear')
def _clrerr(e, a, n):
    e.st.cells[(PY, ('exc',))] = FALSE


@L.lib('PyErr_Occurred')
def _occ(e, a, n):
    return Ptr(Obj('exception', 'cells'), None, not_(e.st.cells[(PY, ('exc',))]))


# ---------------------------------------------------------------- argument parsing
def ptr_cell(p):
    return (p.obj, p.path)


@L.lib('PyArg_ParseTupleAndKeywords')
def _parse(e, a, n):
    args, kw, fmt, kws = a[:4]
    outs = a[4:]
    fmt = text(fmt).split(':')[0].split(';')[0]
    names = []
    for i in range(100):
        p = e.st.cells.get((kws.obj, (i,)), UNDEF)
        if not isinstance(p, Ptr) or p.obj is None:
            break
        names.append(text(p))
    else:
        raise Unsupported('keyword list')
    req = fmt.index('|') if '|' in fmt else len(fmt)
    units = fmt.replace('|', '').replace('$', '')
    e.obl('func', TRUE if e.pyargs == (args.obj, kw.obj) else FALSE, 'the arguments of the call are the ones parsed', n)
    e.obl('func', TRUE if len(names) == len(units) and p.null is TRUE else FALSE, 'one keyword for each format unit, null-terminated', n)
    e.obl('safety', TRUE if len(outs) == len(units) else FALSE, 'one destination for each format unit', n)
    want = e.pyspec
    e.obl('func', TRUE if req == want['required'] else FALSE, 'exactly the documented arguments are required', n)
    e.obl('func', TRUE if [x for x in names] == [x if i >= want['required'] else '' for i, (x, _) in enumerate(want['params'])] else FALSE, 'keywords as documented', n)
    ok = fresh('c!parsed', 'B')
    raised(e, not_(ok))
    for i, (u, q) in enumerate(zip(units, outs)):
        key = names[i] or i
        k, v, given = want['args'].get(key, (None, None, None))
        if v is None or u != k:
            e.obl('func', FALSE, 'argument %s is taken as documented' % key, n)
            raise Unsupported('format unit %s of argument %s' % (u, key))
        c = ptr_cell(q)
        if c not in e.st.cells:
            raise Unsupported('destination of argument %s' % key)
        old = e.st.cells[c]
        h = (lambda x: x) if isinstance(v, Ptr) else None
        if isinstance(v, Ptr):
            e.st.cells[c] = Ptr(v.obj, None, not_(ok))
            continue
        val = D(v) if u == 'd' else v
        if i >= req:
            val = merge(given, val, old)
        e.st.cells[c] = merge(ok, val, D(fresh('c!part', 'R')) if u == 'd' else fresh('c!part', 'I'))
    return as_int(ok)


def merge(c, a, b):
    return X.merge_val(c, a, b)


# ---------------------------------------------------------------- arrays
@L.lib('PyArray_FROM_OTF')
def _otf(e, a, n):
    src = pyobj(e, a[0], n, 'array argument')
    typ, flags = is_const(as_int(a[1])), is_const(as_int(a[2]))
    if typ is None or flags is None:
        raise Unsupported('computed array type')
    e.obl('func', TRUE if int(flags) & 0x101 == 0x101 else FALSE, 'arrays are taken C-contiguous and aligned', n)
    e.obl('func', FALSE if int(flags) & 0x10 else TRUE, 'values that do not fit the element type are rejected, not converted', n)
    nb = fresh('null', 'B')
    if src.pykind == 'array':
        if src.dtype != typ or int(flags) & 0x20:
            raise Unsupported('conversion of an array made here')
        raised(e, nb)
        e.st.cells[(src, ('refs',))] = refs(e, src) + ite(nb, I(0), I(1))
        return Ptr(src, None, nb)
    if typ not in (5, 12):
        raise Unsupported('array type %s' % typ)
    o = new_obj(e, src.name + ' as array', 'array', nb)
    o.dtype, o.src = typ, src
    o.ndim, o.dims = src.ndim, src.dims
    o.data = e.new_arr(src.name, src.size, 'R' if typ == 12 else 'I', content=src.real if typ == 12 else src.ints)
    o.data.frame = e.st.arrs[o.data]
    return Ptr(o, None, nb)


def array(e, p, n):
    o = pyobj(e, p, n, 'array')
    if o.pykind != 'array':
        raise Unsupported('array access to %r' % (p,))
    return o


@L.lib('PyArray_NDIM')
def _ndim(e, a, n):
    return array(e, a[0], n).ndim


@L.lib('PyArray_DIM')
def _dim(e, a, n):
    o = array(e, a[0], n)
    k = is_const(as_int(a[1]))
    if k is None or k >= len(o.dims):
        raise Unsupported('array dimension')
    e.obl('safety', lt(I(int(k)), o.ndim), 'dimension %d exists' % k, n)
    return o.dims[int(k)]


@L.lib('PyArray_SIZE')
def _size(e, a, n):
    return array(e, a[0], n).data.len


@L.lib('PyArray_DATA')
def _data(e, a, n):
    o = array(e, a[0], n)
    e.st.live.setdefault(o.data, TRUE)
    return Ptr(o.data)


def simple_new(zero):
    def f(e, a, n):
        nd, typ = is_const(as_int(a[0])), is_const(as_int(a[2]))
        if nd is None or typ is None:
            raise Unsupported('computed array shape')
        v = e.rview(a[1], I(int(nd)), n, 'dimensions')
        dims = [e.simp(app(v, I(i))) for i in range(int(nd))]
        nb = fresh('null', 'B')
        o = new_obj(e, 'new array', 'array', nb)
        o.dtype, o.ndim, o.dims, o.src = typ, I(int(nd)), dims, None
        size = L.prod(dims)
        for d in dims:
            e.assume(or_(nb, ge(d, I(0))))
        o.data = e.new_arr('new array', size, 'R' if typ == 12 else 'I', content=vconst(0) if zero else None, init=zero)
        return Ptr(o, None, nb)
    return f


L.lib('PyArray_SimpleNew')(simple_new(False))
L.lib('PyArray_ZEROS')(simple_new(True))


# ---------------------------------------------------------------- results
@L.lib('Py_BuildValue')
def _build(e, a, n):
    fmt = text(a[0]).replace(' ', '')
    rest = list(a[1:])
    nb = fresh('null', 'B')
    items, keys, owned = [], [], []

    def one(u):
        if not rest:
            e.obl('safety', FALSE, 'one value for each format unit', n)
            raise Unsupported('Py_BuildValue arguments')
        v = rest.pop(0)
        if u in 'ONS':
            o = pyobj(e, v, n, 'value in the result')
            # O takes a new reference (dropped again if building fails), N uses up the caller's one
            if u != 'N':
                e.st.cells[(o, ('refs',))] = refs(e, o) + ite(nb, I(0), I(1))
            else:
                e.st.cells[(o, ('refs',))] = refs(e, o) - ite(nb, I(1), I(0))
            owned.append(o)
            return v
        if u == 'd':
            return as_d(v)
        if u == 'i':
            return as_int(v)
        if u == 's':
            return text(v)
        raise Unsupported('Py_BuildValue ' + fmt)
    if fmt.startswith('{') and fmt.endswith('}'):
        d = {}
        for pr in fmt[1:-1].split(','):
            k, u = pr.split(':')
            kk = one(k)
            d[kk] = one(u)
        o = new_obj(e, 'result dictionary', 'dict', nb)
        o.items, o.owned = d, owned
        return Ptr(o, None, nb)
    if fmt.startswith('(') and fmt.endswith(')'):
        us = fmt[1:-1].replace(',', '')
    elif len(fmt) == 1:
        if fmt not in 'ONS':
            raise Unsupported('Py_BuildValue ' + fmt)
        v = rest[0]
        o = pyobj(e, v, n, 'result')
        if fmt != 'N':
            e.st.cells[(o, ('refs',))] = refs(e, o) + I(1)
        return v
    else:
        us = fmt.replace(',', '')
    items = [one(u) for u in us]
    o = new_obj(e, 'result tuple', 'tuple', nb)
    o.items, o.owned = items, owned
    return Ptr(o, None, nb)


# ---------------------------------------------------------------- the library as the binding sees it
def record(e, which, **kw):
    if (CALL, ('which',)) not in e.st.cells:
        raise Unsupported('library call outside the binding')
    e.st.cells[(CALL, ('calls',))] = as_int(e.st.cells[(CALL, ('calls',))]) + I(1)
    e.st.cells[(CALL, ('which',))] = I(which)
    for k, v in kw.items():
        e.st.cells[(CALL, (k,))] = v


def solve(e, x, m, b, nb_, node, name, done=TRUE):
    wellformed(e, [('x', x, m)] + ([('b', b, nb_)] if name != 'l1qc_dct' else []), node, name)
    e.obl('align', TRUE if x.obj.aligned else FALSE, '%s: the result array is 64-byte aligned' % name, node)
    bv = e.rview(b, nb_, node, 'measurements')
    e.st.arrs[GIN] = bv
    x1 = fresh_vec('c!solution')
    e.st.arrs[GX1] = x1
    if done is TRUE:
        e.wview(x, m, x1, node, 'solution')
        if x.obj in e.st.init:
            e.st.init[x.obj] = vlam(lambda k: I(1), 'I')
        return
    # a run that fails early leaves the output as it was
    iv = e.st.init.get(x.obj)
    if iv is not None and is_const(x.off) != 0:
        raise Unsupported('solution at an offset')
    old = e.view(x, m)
    e.wview(x, m, vlam(lambda k: ite(done, app(x1, k), app(old, k))), node, 'solution')
    if iv is not None:
        e.st.init[x.obj] = vlam(lambda k: ite(done, I(1), app(iv, k)), 'I')


def l1qc_dct_apply(self, e, args, node):
    r, q, x, n, b, pix, opts, lb = args
    r, q, n = as_int(r), as_int(q), as_int(n)
    m = r * q
    e.obl('mpre', le(n, m), 'l1qc_dct: no more measurements than unknowns', node)
    pv = e.rview(pix, n, node, 'sample indices')
    dm = as_int(opts.f[('dct_mode',)])
    e.obl('mpre', and_(ge(dm, I(1)), le(dm, I(2))), 'l1qc_dct: dct mode', node)
    v = e.fresh_int('c!status', -2**31, 2**31 - 1)
    res = {}
    for p, ft in e.leaf_paths('l1c_LBResult'):
        res[p] = D(fresh('c!' + p[0], 'R')) if 'double' in ft else e.fresh_int('c!' + p[0], -2**31, 2**31 - 1)
        e.st.cells[(lb.obj, lb.path + p)] = res[p]
    done = fresh('c!written', 'B')
    e.assume(implies(eq(v, I(0)), done))
    solve(e, x, m, b, n, node, 'l1qc_dct', done)
    record(e, 1, r=r, q=q, n=n, status=v, pix=pix, **{'opt.' + '.'.join(p): w for p, w in opts.f.items()}, **{'res.' + '.'.join(p): w for p, w in res.items()})
    return v


s_onecall.OneCall.apply = l1qc_dct_apply


def breg_apply(e, args, node):
    n, m, uk, f, mu, tol, mi, mj = args
    n, m = as_int(n), as_int(m)
    e.obl('mpre', and_(ge(n, I(3)), ge(m, I(3))), 'l1c_breg_anistropic_TV: both sides greater than 2', node)
    e.obl('align', TRUE if f.obj.aligned else FALSE, 'l1c_breg_anistropic_TV: the image is 64-byte aligned', node)
    v = e.fresh_int('c!status', -2**31, 2**31 - 1)
    solve(e, uk, n * m, f, n * m, node, 'l1c_breg_anistropic_TV')
    record(e, 2, n=n, m=m, status=v, mu=as_d(mu), tol=as_d(tol), max_iter=as_int(mi), max_jac_iter=as_int(mj))
    return v


CONTRACTS['l1c_breg_anistropic_TV'].apply = breg_apply


class Ext:
    """the caller's view of a function proved elsewhere"""
    file = None

    def __init__(self, name, f):
        self.name = self.key = name
        self.apply = f
        CONTRACTS[name] = self


def tv_apply(e, args, node):
    n, r, q, av, ah, dm, bp, pix, axp = args
    n, r, q, dm, bp = (as_int(x) for x in (n, r, q, dm, bp))
    e.obl('mpre', and_(ge(dm, I(1)), le(dm, I(2)), ge(bp, I(1)), le(bp, I(2))), 'l1c_setup_dctTV_transforms: modes', node)
    e.rview(pix, n, node, 'sample indices')
    v = fresh('c!status', 'I')
    e.assume(or_(*[eq(v, I(s)) for s in (0, OOM, INIT, INVAL)]))
    m = r * q
    e.assume(or_(ne(v, I(0)), and_(ge(n, I(1)), ge(r, I(1)), ge(q, I(1)))))
    mm, pp = fresh('c!m', 'I'), fresh('c!p', 'I')
    e.assume(and_(ge(mm, m), ge(pp, m)))
    op = lambda k, a, b: (a, b, ab('tv.' + k, a, b))
    ops = {k: op(k, *d) for k, d in dict(Ax=(mm, n), Aty=(n, mm), AtAx=(mm, mm), Mx=(mm, m), Mty=(m, mm), Wz=(mm, pp), Wtx=(pp, mm), Rx=(m, n), Rty=(n, m)).items()}
    e.pyset = ghost_set(e, axp, n, m, eq(v, I(0)), 'DCT+TV set', dict(n=n, m=mm, p=pp, q=m), ops, fresh('c!norm_W', 'R'))
    e.pymx = ops['Mx'][2], mm
    if (CALL, ('which',)) not in e.st.cells:
        raise Unsupported('library call outside the binding')
    for k, w in dict(n=n, r=r, q=q, alpha_v=as_d(av), alpha_h=as_d(ah), dct_mode=dm, bp_mode=bp, pix=pix, setup=v).items():
        e.st.cells[(CALL, (k,))] = w
    return v


Ext('l1c_setup_dctTV_transforms', lambda e, a, n: tv_apply(e, a, n))


def nesta_apply(e, args, node):
    m, x, n, b, ax, opts = args
    m, n = as_int(m), as_int(n)
    for f in ('Ax', 'Aty', 'destroy'):
        g = ax.f.get((f,), UNDEF)
        if isinstance(g, Maybe):
            e.obl('uninit', g.cond, 'l1c_nesta: operator %s is set' % f, node)
            g = g.val
        e.obl('mpre', TRUE if isinstance(g, FnV) else FALSE, 'l1c_nesta: operator %s of a transform set' % f, node)
    e.obl('live', e.st.live[e.pyset], 'the transform set is live while the solver runs', node)
    e.obl('align', TRUE if b.obj.aligned else FALSE, 'l1c_nesta: the measurements are 64-byte aligned', node)
    v = e.fresh_int('c!status', -2**31, 2**31 - 1)
    done = fresh('c!written', 'B')
    e.assume(implies(eq(v, I(0)), done))
    solve(e, x, m, b, n, node, 'l1c_nesta', done)
    record(e, 3, nm=m, nn=n, status=v, **{'opt.' + '.'.join(p): w for p, w in opts.f.items()})
    return v


CONTRACTS['l1c_nesta'].apply = nesta_apply


# ---------------------------------------------------------------- the three entry points
class Binding(Contract):
    def __init__(self, name, which, params, required):
        self.which, self.plist, self.required = which, params, required
        self.extra_files = ()
        Contract.__init__(self, name, F, [], None, scenarios=[self.setup])

    def setup(self, e):
        e.st.cells[(PY, ('exc',))] = e.st.cells[(PY, ('api',))] = FALSE
        mk = lambda nm: Obj(nm, 'cells')
        selfo, args, kw = mk('self'), mk('args'), mk('kw')
        e.pyargs = (args, kw)
        A = {}
        self.objs = []
        for i, (nm, k, *dflt) in enumerate(self.plist):
            key = nm if i >= self.required else i
            if k == 'O':
                o = mk(nm)
                o.pykind, o.absent = 'any', I(0)
                o.refs0 = e.fresh_int(nm + '_refs', 1, 2**31)
                e.st.cells[(o, ('refs',))] = o.refs0
                o.ndim = e.fresh_int(nm + '_ndim', 0, 32)
                d0, d1 = e.fresh_int(nm + '_dim0', 0, 2**31 - 1), e.fresh_int(nm + '_dim1', 0, 2**31 - 1)
                o.dims = [d0, d1]
                o.size = e.fresh_int(nm + '_size', 0, 2**62)
                e.assume(implies(eq(o.ndim, I(1)), eq(o.size, d0)))
                e.assume(implies(eq(o.ndim, I(2)), and_(eq(o.size, d0 * d1), le(d0 * d1, I(2**31 - 1)))))
                o.real, o.ints = vatom(nm + '_values'), vatom(nm + '_ints', 'I')
                A[key] = ('O', Ptr(o), TRUE)
                self.objs.append(o)
            elif k == 'd':
                A[key] = ('d', var('arg_' + nm, 'R'), var('given_' + nm, 'B') if i >= self.required else TRUE)
            else:
                A[key] = ('i', e.fresh_int('arg_' + nm, -2**31, 2**31 - 1), var('given_' + nm, 'B') if i >= self.required else TRUE)
        e.pyspec = dict(required=self.required, params=[(p[0], p[1]) for p in self.plist], args=A)
        self.val = {}
        for i, (nm, k, *dflt) in enumerate(self.plist):
            _, v, g = A[nm if i >= self.required else i]
            if k == 'O':
                self.val[nm] = v.obj
            elif k == 'd':
                self.val[nm] = v if not dflt else ite(g, v, R(dflt[0]))
            else:
                self.val[nm] = v if not dflt else ite(g, v, I(dflt[0]))
        if 'mrow' in self.val:
            m = self.val['mrow'] * self.val['mcol']
            e.assume(or_(le(m, I(2**30 - 1)), gt(m, I(2**31 - 1))))      # between the two the work arrays of l1qc do not fit an int
            self.dims = [self.val['mrow'], self.val['mcol']]
        else:
            self.dims = self.val['f'].dims
        self.m = L.prod(self.dims)
        e.st.cells[(CALL, ('calls',))] = I(0)
        e.st.cells[(CALL, ('which',))] = I(0)
        for g in (GIN, GX0, GX1):
            g.len = self.m
            e.st.arrs[g] = fresh_vec('ghost')
        return [Ptr(selfo), Ptr(args), Ptr(kw)]

    def cell(self, st, k):
        v = st.cells.get((CALL, (k,)), UNDEF)
        return v.val if isinstance(v, Maybe) else v

    def check(self, e, s0, args, outs):
        seen = set()
        for oc in outs:
            r = oc.val
            if not isinstance(r, Ptr):
                e.st = oc.st.copy()
                e.obl('func', FALSE, 'returns an object or null')
                continue
            for null in (True, False):
                e.st = oc.st.copy()
                e.assume(r.null if null else not_(r.null), 'c')
                if P.sat(e.hyps(), 1) == 'unsat':
                    continue
                seen.add(null)
                st = e.st
                keep = {}
                exc = st.cells[(PY, ('exc',))]
                if null:
                    e.obl('func', exc, 'null is returned only with an exception set')
                    e.obl('func', self.reason(st, s0), 'good arguments are rejected only when a step fails')
                else:
                    e.obl('func', not_(exc), 'a result is returned only without an exception')
                    self.result(e, st, r, keep)
                for o in {k[0] for k in st.cells if getattr(k[0], 'pykind', None)}:
                    w = o.refs0 if o in self.objs else I(keep.get(o, 0))
                    e.obl('alloc', eq(refs(e, o), w), 'reference count of %s: %s' % (o.name, 'as on entry' if o in self.objs else 'one for the caller' if o in keep else 'released on every path'))
                for o, l in st.live.items():
                    if o not in s0.live and o.heap:
                        e.obl('alloc', not_(l), '%s acquired here is released on every path' % o.name)
                for o, v in st.arrs.items():
                    fv = getattr(o, 'frame', None)
                    if fv is not None and v is not fv:
                        e.obl('func', forall(o.len, lambda k: eq(app(v, k), app(fv, k))), 'the caller\'s array %s is left unchanged' % o.name)
        e.st = s0.copy()
        e.obl('func', TRUE if seen == {True, False} else FALSE, 'both success and failure are possible')

    def reason(self, st, s0):
        V, C = self.val, lambda k: self.cell(st, k)
        why = [st.cells[(PY, ('api',))]] + [o.nullvar for o in st.live if o not in s0.live and getattr(o, 'nullvar', None) is not None]
        why += [not_(and_(ge(V[k], I(1)), le(V[k], I(2)))) for k in ('dct_mode', 'bp_mode') if k in V]
        if self.which == 2:
            f = V['f']
            why += [ne(f.ndim, I(2)), lt(f.dims[0], I(3)), lt(f.dims[1], I(3))]
        else:
            b, p = V['b'], V['pix_idx']
            why += [ne(b.ndim, I(1)), ne(p.ndim, I(1)), ne(b.size, p.size), lt(self.m, b.size)]
            why += [le(self.val['mrow'], I(0)), le(self.val['mcol'], I(0)), gt(self.m, I(2**31 - 1))]
        k = 'setup' if self.which == 3 else 'status'
        v = st.cells.get((CALL, (k,)), UNDEF)
        if isinstance(v, Maybe):
            why.append(and_(v.cond, ne(as_int(v.val), I(0))))
        elif v is not UNDEF:
            why.append(ne(as_int(v), I(0)))
        return or_(*why)

    def eqs(self, e, pairs, what):
        for k, got, want in pairs:
            if got is UNDEF:
                e.obl('func', FALSE, what % k)
                continue
            if isinstance(got, D):
                e.obl('func', and_(eq(got.t, want), not_(got.nan)), what % k)
            else:
                e.obl('func', eq(as_int(got), want), what % k)

    def result(self, e, st, r, keep):
        C = lambda k: self.cell(st, k)
        V = self.val
        e.obl('func', and_(eq(as_int(st.cells[(CALL, ('which',))]), I(self.which)), eq(as_int(st.cells[(CALL, ('calls',))]), I(1))), 'the solver ran exactly once')
        if C('status') is UNDEF:
            return
        shape = lambda o: and_(*[eq(a, b) for a, b in zip(o.dims, self.dims)]) if len(o.dims) == len(self.dims) else FALSE
        o = r.obj
        ok = r.null
        if self.which != 2:
            if getattr(o, 'pykind', None) != 'tuple' or len(o.items) != 2 or not isinstance(o.items[0], Ptr):
                e.obl('func', FALSE, 'a pair is returned')
                return
            keep[o] = 1
            arr, second = o.items
            arr = arr.obj
        else:
            arr = o
        if getattr(arr, 'pykind', None) != 'array' or arr.src is not None:
            e.obl('func', FALSE, 'a new array is returned')
            return
        keep[arr] = 1
        e.obl('func', TRUE if arr.dtype == 12 else FALSE, 'the result is an array of doubles')
        e.obl('func', shape(arr), 'the result has the shape of the image')
        x, x1 = st.arrs[arr.data], st.arrs[GX1]
        if self.which == 3:
            x1 = e.pymx[0](x1)            # in synthesis mode the solver works on coefficients: the image is M times its result
        base = e.st
        e.st = base.copy()
        e.assume(eq(as_int(C('status')), I(0)), 'c')
        e.obl('func', forall(self.m, lambda k: eq(app(x, k), app(x1, k))), 'the result is exactly the image the solver computed')
        e.st = base
        iv = st.init.get(arr.data)
        if iv is not None:
            e.obl('uninit', forall(self.m, lambda k: eq(app(iv, k), I(1))), 'every element of the result is set')
        src = V['f'] if self.which == 2 else V['b']
        ln = src.size
        e.obl('func', forall(ln, lambda k: eq(app(st.arrs[GIN], k), app(src.real, k))), 'the solver was given the caller\'s data')
        if self.which == 2:
            e.obl('func', eq(src.ndim, I(2)), 'the image has two dimensions')
            self.eqs(e, [('n', C('n'), src.dims[0]), ('m', C('m'), src.dims[1])] + [(k, C(k), V[k]) for k in ('mu', 'tol', 'max_iter', 'max_jac_iter')], 'argument %s reaches the solver')
            e.obl('func', eq(as_int(C('status')), I(0)), 'a failed run raises')
            return
        pix = V['pix_idx']
        e.obl('func', and_(eq(V['b'].ndim, I(1)), eq(pix.ndim, I(1)), eq(V['b'].size, pix.size), le(ln, self.m)), 'arrays of equal length, one dimension, at most one entry per pixel')
        pp = C('pix')
        e.obl('func', TRUE if isinstance(pp, Ptr) and getattr(pp.obj, 'frame', None) is pix.ints and is_const(pp.off) == 0 else FALSE, 'the sample indices reach the solver')
        self.eqs(e, [('mrow', C('r'), V['mrow']), ('mcol', C('q'), V['mcol']), ('the number of measurements', C('n'), ln)], '%s reaches the solver')
        if self.which == 1:
            fld = dict(epsilon='epsilon', mu='mu', lbtol='lbtol', newton_tol='newton_tol', newton_max_iter='newton_max_iter', verbose='verbose', l1_tol='l1_tol', cgtol='cg_tol', cgmaxiter='cg_maxiter', dct_mode='dct_mode')
            self.eqs(e, [(k, C('opt.' + f), V[k]) for k, f in fld.items()], 'argument %s reaches the solver')
            self.eqs(e, [(f, C('opt.' + f), w) for f, w in (('lbiter', I(0)), ('warm_start_cg', I(0)), ('cg_verbose', I(0)))], 'option %s has its documented value')
            e.obl('func', eq(as_int(C('status')), I(0)), 'a failed run raises')
            d = second.obj if isinstance(second, Ptr) else None
            if getattr(d, 'pykind', None) != 'dict':
                e.obl('func', FALSE, 'the second entry is a dictionary')
                return
            keep[d] = 1
            e.obl('func', TRUE if set(d.items) == {'l1', 'total_newton_iter', 'total_cg_iter', 'status'} else FALSE, 'the dictionary has the documented entries')
            for k, v in d.items.items():
                w = C('res.' + k)
                if isinstance(w, D):
                    e.obl('func', eq(as_d(v).t, w.t), 'entry %s is the solver\'s' % k)
                else:
                    e.obl('func', eq(as_int(v), as_int(w)), 'entry %s is the solver\'s' % k)
        else:
            self.eqs(e, [(k, C(k), V[k]) for k in ('alpha_v', 'alpha_h', 'dct_mode', 'bp_mode')], 'argument %s reaches the transforms')
            self.eqs(e, [(k, C('opt.' + k), V[k]) for k in ('sigma', 'mu', 'tol', 'n_continue', 'verbose')], 'argument %s reaches the solver')
            self.eqs(e, [('the number of unknowns', C('nm'), e.pymx[1]), ('the number of measurements', C('nn'), ln)], '%s reaches the solver')
            e.obl('func', eq(as_int(C('setup')), I(0)), 'a failed set-up raises')
            if not isinstance(second, Term):
                e.obl('func', FALSE, 'the second entry is the status')
                return
            e.obl('func', eq(as_int(second), as_int(C('status'))), 'the second entry is the solver\'s status')


Q = lambda a, b: Fraction(a, b)
Binding('_l1qc_dct', 1, [('mrow', 'i'), ('mcol', 'i'), ('b', 'O'), ('pix_idx', 'O'), ('epsilon', 'd', Q(1, 100)), ('mu', 'd', 10), ('lbtol', 'd', Q(1, 1000)), ('newton_tol', 'd', Q(1, 1000)),
                         ('newton_max_iter', 'i', 50), ('verbose', 'i', 0), ('l1_tol', 'd', Q(1, 10**5)), ('cgtol', 'd', Q(1, 10**8)), ('cgmaxiter', 'i', 200), ('dct_mode', 'i', 1)], 4)
Binding('_breg_anistropic_TV', 2, [('f', 'O'), ('mu', 'd', 10), ('tol', 'd', Q(1, 1000)), ('max_iter', 'i', 1000), ('max_jac_iter', 'i', 1)], 1)
Binding('_nesta_dctTV', 3, [('mrow', 'i'), ('mcol', 'i'), ('b', 'O'), ('pix_idx', 'O'), ('alpha_v', 'd', 0), ('alpha_h', 'd', 0), ('sigma', 'd', Q(1, 100)), ('mu', 'd', Q(1, 10**5)), ('tol', 'd', Q(1, 10**5)),
                            ('n_continue', 'i', 5), ('verbose', 'i', 5), ('dct_mode', 'i', 1), ('bp_mode', 'i', 1)], 4)
