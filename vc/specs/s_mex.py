"""Contracts of the Matlab/Octave binding (interfaces/mex): bad arguments raise, good ones reach the library as documented (column-major images,
1-based indices), the result is the solver's, and every buffer and transform set is released on every way out, raising included.
The mex API is modelled (assumed) here; the helpers in l1c_mex_utils.c are executed in place, not abstracted."""
from contract import *
import re
import s_mem, s_xfm, s_onecall, s_breg, s_nesta, s_py
from s_xfm import OOM, INIT, INVAL
from s_py import CALL, GIN, GX0, GX1, text

DIR = '../interfaces/mex/'
SYN, ANA = 1, 2


def mx(e, p, n, what='array'):
    if not isinstance(p, Ptr):
        raise Unsupported('mxArray %r' % (p,))
    e.obl('live', not_(p.null), '%s is not null' % what, n)
    if p.obj is None or not hasattr(p.obj, 'mx'):
        raise Unsupported('mxArray %r' % (p,))
    return p.obj


def attr(*names):
    def f(g):
        for nm in names:
            L.lib(nm)(lambda e, a, n: g(e, mx(e, a[0], n)))
        return g
    return f


attr('mxGetM')(lambda e, o: o.rows)
attr('mxGetN')(lambda e, o: o.cols)
attr('mxGetNumberOfDimensions')(lambda e, o: o.ndim)
attr('mxGetNumberOfElements')(lambda e, o: o.rows * o.cols)
attr('mxIsDouble')(lambda e, o: o.double)
attr('mxIsInt32')(lambda e, o: o.int32)
attr('mxIsStruct')(lambda e, o: o.struct)
attr('mxIsChar')(lambda e, o: o.char)
attr('mxIsScalar')(lambda e, o: eq(o.rows * o.cols, I(1)))
attr('mxIsEmpty')(lambda e, o: eq(o.rows * o.cols, I(0)))
attr('mxIsComplex')(lambda e, o: o.complex)
attr('mxIsSparse')(lambda e, o: o.sparse)


@L.lib('mxGetPr', 'mxGetData')
def _pr(e, a, n):
    o = mx(e, a[0], n)
    e.obl('safety', o.double, '%s holds doubles' % o.name, n)
    e.obl('safety', not_(o.sparse), '%s is a full array' % o.name, n)
    e.obl('func', not_(o.complex), '%s is real' % o.name, n)
    e.st.live.setdefault(o.data, TRUE)
    return Ptr(o.data)


@L.lib('mxGetScalar')
def _sc(e, a, n):
    o = mx(e, a[0], n)
    e.obl('safety', ge(o.rows * o.cols, I(1)), '%s is not empty' % o.name, n)
    e.obl('func', o.double, '%s is a double' % o.name, n)
    return D(app(e.st.arrs[o.data], I(0)))


@L.lib('mxGetField')
def _field(e, a, n):
    o = mx(e, a[0], n)
    e.obl('safety', o.struct, 'fields are read from a struct', n)
    e.obl('safety', and_(eq(as_int(a[1]), I(0)), ge(o.rows * o.cols, I(1))), 'element 0 of the struct exists', n)
    nm = text(a[2])
    q = getattr(o, 'fields', {}).get(nm)
    if q is None:
        e.obl('func', FALSE, 'field %s is documented' % nm, n)
        raise Unsupported('field %s' % nm)
    return Ptr(q, None, q.missing)


@L.lib('mxSetField')
def _setfield(e, a, n):
    o = mx(e, a[0], n)
    q = mx(e, a[3], n)
    nm = text(a[2])
    e.obl('safety', TRUE if is_const(as_int(a[1])) == 0 and nm in getattr(o, 'names', ()) else FALSE, 'field %s of the new struct exists' % nm, n)
    e.st.cells[(o, (nm,))] = a[3]


@L.lib('mxGetString')
def _string(e, a, n):
    o = mx(e, a[0], n)
    b, k = a[1], as_int(a[2])
    m = re.match(r'char ?\[(\d+)\]', b.obj.rtype or '') if isinstance(b, Ptr) and b.obj is not None else None
    if m is None or b.obj.kind != 'str':
        raise Unsupported('buffer of mxGetString')
    e.obl('safety', le(k, I(int(m.group(1)))), 'the buffer is as long as stated', n)
    ok = and_(o.char, lt(o.text_len, k))
    e.st.cells[(b.obj, ())] = ite(ok, o.text_code, fresh('c!cut', 'I'))
    return as_int(not_(ok))


def strcmp(e, a, n, whole):
    def one(p):
        if not isinstance(p, Ptr) or p.obj is None or p.obj.kind != 'str':
            raise Unsupported('string %r' % (p,))
        t = getattr(p.obj, 'text', None)
        return t.strip('"') if t is not None else e.st.cells[(p.obj, ())]
    x, y = one(a[0]), one(a[1])
    if isinstance(x, str):
        x, y = y, x
    code = {'synthesis': SYN, 'analysis': ANA}.get(y) if isinstance(y, str) else None
    if isinstance(x, str) or code is None:
        raise Unsupported('string comparison')
    same = eq(x, I(code))
    if whole is not None:
        k = is_const(whole)
        if k is None:
            raise Unsupported('length of the comparison')
        if k <= len(y):           # only a prefix is compared
            same = or_(same, uf('prefix.%s.%d' % (y, k), 'B', x))
    r = fresh('c!cmp', 'I')
    e.assume(iff(eq(r, I(0)), same))
    return r


L.lib('strncmp')(lambda e, a, n: strcmp(e, a, n, as_int(a[2])))
L.lib('strcmp')(lambda e, a, n: strcmp(e, a, n, None))
L.lib('l1c_replace_printf', 'mexWarnMsgTxt', 'mexWarnMsgIdAndTxt')(lambda e, a, n: None)
L.lib('mexPrintf')(lambda e, a, n: fresh('c!printed', 'I'))


@L.lib('mexErrMsgIdAndTxt', 'mexErrMsgTxt')
def _raise(e, a, n):
    """does not return: control goes back to the interpreter"""
    if not hasattr(e, 'mexc'):
        raise Unsupported('mexErrMsgIdAndTxt outside the binding')
    if not e.mute:
        e.mexc.raised(e, n)
    e.assume(FALSE, 'c')


def new(e, name, rows, cols, content=None):
    o = Obj(name, 'cells')
    o.mx, o.absent = 'new', NULL
    o.rows, o.cols, o.ndim = rows, cols, I(2)
    o.double, o.int32, o.struct, o.char, o.complex, o.sparse = TRUE, FALSE, FALSE, FALSE, FALSE, FALSE
    o.data = e.new_arr(name, rows * cols, content=content if content is not None else vconst(0))
    return o


@L.lib('mxCreateDoubleMatrix')
def _cdm(e, a, n):
    r, c = as_int(a[0]), as_int(a[1])
    e.obl('safety', and_(ge(r, I(0)), ge(c, I(0))), 'a new matrix has a size', n)
    e.obl('func', eq(as_int(a[2]), I(0)), 'a new matrix is real', n)
    return Ptr(new(e, 'new matrix', r, c))


@L.lib('mxCreateDoubleScalar')
def _cds(e, a, n):
    v = as_d(a[0]).t
    return Ptr(new(e, 'new scalar', I(1), I(1), vlam(lambda k: v)))


@L.lib('mxCreateStructMatrix')
def _csm(e, a, n):
    r, c, k = (is_const(as_int(x)) for x in a[:3])
    if (r, c) != (1, 1) or k is None or not isinstance(a[3], Ptr):
        raise Unsupported('struct array')
    o = new(e, 'new struct', I(1), I(1))
    o.double, o.struct = FALSE, TRUE
    e.obl('safety', TRUE if is_const(a[3].obj.len) is not None and k <= is_const(a[3].obj.len) else FALSE, 'the field names exist', n)
    o.names = []
    for i in range(int(k)):
        p = e.st.cells.get((a[3].obj, (i,)), UNDEF)
        o.names.append(text(p))
        e.st.cells[(o, (o.names[-1],))] = NULL
    return Ptr(o)


class Mex(Contract):
    """args: list of (name, kind) with kind 'scalar' (double), 'int' (double truncated), 'vector', 'image', 'struct'; fields: name -> kind"""

    def __init__(self, key, file, which, nlhs, args, fields):
        self.which, self.nlhs, self.alist, self.flist = which, nlhs, args, fields
        self.extra_files = (DIR + 'l1c_mex_utils.c',)
        Contract.__init__(self, 'mexFunction', DIR + file, [], None, scenarios=[self.setup], key=key)

    def arg(self, e, nm, kind):
        o = Obj(nm, 'cells')
        o.mx = 'arg'
        o.rows, o.cols, o.ndim = e.fresh_int(nm + '_rows', 0, 2**40), e.fresh_int(nm + '_cols', 0, 2**40), e.fresh_int(nm + '_ndim', 2, 100)
        for q in ('double', 'int32', 'struct', 'char', 'complex', 'sparse', 'missing'):
            setattr(o, q, var('%s_%s' % (nm, q), 'B'))
        kinds = [o.double, o.int32, o.struct, o.char]
        e.assume(and_(*[or_(not_(a), not_(b)) for i, a in enumerate(kinds) for b in kinds[:i]]))
        e.assume(le(o.rows * o.cols, I(2**60)))
        o.data = e.new_arr(nm, o.rows * o.cols, content=vatom(nm + '_values'))
        o.data.frame = e.st.arrs[o.data]
        o.text_len, o.text_code = e.fresh_int(nm + '_len', 0, 2**40), fresh(nm + '_text', 'I')
        e.assume(and_(implies(eq(o.text_code, I(SYN)), eq(o.text_len, I(9))), implies(eq(o.text_code, I(ANA)), eq(o.text_len, I(8)))))
        return o

    def setup(self, e):
        e.mexc = self
        self.A = {}
        self.wrong = []          # the conditions under which the arguments are not acceptable
        self.may = []            # odd scalars (sparse, complex) may be taken by their real value or refused
        nlhs, nrhs = e.fresh_int('nlhs', 0, 50), e.fresh_int('nrhs', 0, 50)
        self.nl = nlhs
        self.wrong += [lt(nlhs, I(self.nlhs)), lt(nrhs, I(len(self.alist)))]
        prhs, plhs = Obj('prhs', 'ptrs', length=nrhs), Obj('plhs', 'ptrs', length=tmax(nlhs, I(1)))
        self.val = V = {}
        numel = lambda o: o.rows * o.cols
        plain = lambda o: and_(o.double, not_(o.complex), not_(o.sparse))
        for i, (nm, kind) in enumerate(self.alist):
            o = self.A[nm] = self.arg(e, nm, kind)
            e.st.cells[(prhs, (i,))] = Ptr(o)
            v = app(e.st.arrs[o.data], I(0))
            if kind in ('scalar', 'int'):
                self.wrong.append(not_(and_(o.double, eq(numel(o), I(1)))))
                self.may += [o.sparse, o.complex]
                V[nm] = v if kind == 'scalar' else uf('trunc', 'I', v)
            elif kind == 'vector':
                self.wrong.append(not_(and_(plain(o), eq(o.ndim, I(2)), or_(eq(o.rows, I(1)), eq(o.cols, I(1))), ge(numel(o), I(2)), le(numel(o), I(2**31 - 1)))))
                V[nm] = o
            elif kind == 'image':
                self.wrong.append(not_(and_(plain(o), eq(o.ndim, I(2)), ge(o.rows, I(3)), ge(o.cols, I(3)))))
                V[nm] = o
                e.assume(and_(le(o.rows, I(2**30)), le(o.cols, I(2**30)), le(numel(o), I(2**30 - 1))))
            else:
                o.fields = {}
                self.wrong += [not_(o.struct), ne(o.rows, I(1)), ne(o.cols, I(1))]
                for f, k in self.flist.items():
                    q = o.fields[f] = self.arg(e, 'opts.' + f, k)
                    w = app(e.st.arrs[q.data], I(0))
                    self.wrong.append(q.missing)
                    if k == 'mode':
                        self.wrong.append(not_(and_(q.char, or_(eq(q.text_code, I(SYN)), eq(q.text_code, I(ANA))))))
                        V[f] = ite(eq(q.text_code, I(SYN)), I(2), I(1))
                        continue
                    self.wrong.append(not_(and_(q.double, eq(numel(q), I(1)))))
                    self.may += [q.sparse, q.complex]
                    V[f] = w if k == 'scalar' else uf('trunc', 'I', w)
                    if k == 'dct':
                        self.wrong += [lt(V[f], I(1)), gt(V[f], I(2))]
        for v in V.values():
            if isinstance(v, Term) and v.sort == 'I':
                e.assume(and_(ge(v, I(-2**31)), le(v, I(2**31 - 1))))
        if self.which == 2:
            self.m = numel(V['img'])
        else:
            r, c = V['mrow'], V['mcol']
            self.m = r * c
            e.assume(or_(le(self.m, I(2**30 - 1)), gt(self.m, I(2**31 - 1))))
            b, p = self.A['b'], self.A['pix_idx']
            nb = numel(b)
            self.wrong += [le(r, I(0)), le(c, I(0)), gt(self.m, I(2**31 - 1)), le(self.m, nb), ne(nb, numel(p))]
            pv = e.st.arrs[p.data]
            self.ix = lambda k: uf('trunc', 'I', app(pv, k)) - I(1)
            self.goodix = forall(numel(p), lambda k: and_(ge(self.ix(k), I(0)), lt(self.ix(k), self.m)))
            self.nb = nb
            self.wrong.append(not_(self.goodix))
        for i in range(4):
            e.st.cells[(plhs, (i,))] = UNDEF
        self.plhs = plhs
        e.st.cells[(CALL, ('calls',))] = I(0)
        e.st.cells[(CALL, ('which',))] = I(0)
        e.st.cells[(CALL, ('pixok',))] = FALSE
        for g in (GIN, GX0, GX1):
            g.len = self.m
            e.st.arrs[g] = fresh_vec('ghost')
        self.live0 = None
        return [nlhs, Ptr(plhs), nrhs, Ptr(prhs)]

    def before(self, e, args):
        self.live0 = set(e.st.live)

    def cell(self, st, k):
        v = st.cells.get((CALL, (k,)), UNDEF)
        return v.val if isinstance(v, Maybe) else v

    def released(self, e, st):
        for o, l in st.live.items():
            if o not in self.live0 and (o.heap or not isinstance(o, Obj)):
                e.obl('alloc', not_(l), '%s acquired here is released on every path' % o.name)

    def failed(self, st):
        """conditions, other than the arguments, under which raising is right"""
        why = [o.nullvar for o in st.live if o not in self.live0 and getattr(o, 'nullvar', None) is not None]
        for k in ('setup', 'status'):
            v = st.cells.get((CALL, (k,)), UNDEF)
            if isinstance(v, Maybe):
                why.append(and_(v.cond, ne(as_int(v.val), I(0))))
            elif v is not UNDEF:
                why.append(ne(as_int(v), I(0)))
        return why

    def unchanged(self, e, st):
        for o, v in st.arrs.items():
            fv = getattr(o, 'frame', None)
            if fv is not None and v is not fv:
                e.obl('func', forall(o.len, lambda k: eq(app(v, k), app(fv, k))), 'the caller\'s array %s is left unchanged' % o.name)

    def raised(self, e, n):
        st = e.st
        e.obl('func', or_(*(self.wrong + self.may + self.failed(st))), 'an error is raised only for bad arguments or a failed step', n)
        self.released(e, st)
        self.unchanged(e, st)

    def check(self, e, s0, args, outs):
        if not outs:
            e.st = s0.copy()
            e.obl('func', FALSE, 'the function returns for good arguments')
        for oc in outs:
            e.st = oc.st.copy()
            st = e.st
            for w in self.wrong:
                e.obl('func', not_(w), 'bad arguments raise an error')
            for k in [o.nullvar for o in st.live if o not in self.live0 and getattr(o, 'nullvar', None) is not None]:
                e.obl('func', not_(k), 'memory exhaustion raises an error')
            self.released(e, st)
            self.unchanged(e, st)
            self.result(e, st)

    eqs = s_py.Binding.eqs

    def out(self, e, st, i, what):
        v = st.cells.get((self.plhs, (i,)), UNDEF)
        if isinstance(v, Maybe):
            e.obl('uninit', v.cond, '%s is set' % what)
            v = v.val
        if not isinstance(v, Ptr) or v.obj is None or getattr(v.obj, 'mx', None) != 'new':
            e.obl('func', FALSE, '%s is a new array' % what)
            return None
        e.obl('func', not_(v.null), '%s is a new array' % what)
        return v.obj

    def one(self, e, st, o, want, what):
        e.obl('func', and_(o.double, eq(o.rows, I(1)), eq(o.cols, I(1))), '%s is a scalar' % what)
        got = app(st.arrs[o.data], I(0))
        e.obl('func', eq(got, want.t if isinstance(want, D) else to_real(as_int(want))), '%s is the solver\'s' % what)

    def result(self, e, st):
        C = lambda k: self.cell(st, k)
        V = self.val
        e.obl('func', and_(eq(as_int(st.cells[(CALL, ('which',))]), I(self.which)), eq(as_int(st.cells[(CALL, ('calls',))]), I(1))), 'the solver ran exactly once')
        if C('status') is UNDEF:
            return
        o = self.out(e, st, 0, 'the first output')
        if o is None:
            return
        src = V['img'] if self.which == 2 else self.A['b']
        shape = {1: (self.m, I(1)), 2: (src.rows, src.cols), 3: (V.get('mrow'), V.get('mcol'))}[self.which]
        e.obl('func', and_(o.double, eq(o.rows, shape[0]), eq(o.cols, shape[1])), 'the first output has the shape of the image')
        x, x1 = st.arrs[o.data], st.arrs[GX1]
        if self.which == 3:
            x1 = e.pymx[0](x1)
        ok = eq(as_int(C('status')), I(0))
        base = e.st
        e.st = base.copy()
        e.assume(ok, 'c')
        e.obl('func', forall(self.m, lambda k: eq(app(x, k), app(x1, k))), 'the first output is exactly what the solver computed')
        e.st = base
        ln = src.rows * src.cols
        e.obl('func', forall(ln, lambda k: eq(app(st.arrs[GIN], k), app(st.arrs[src.data], k))), 'the solver was given the caller\'s data')
        if self.which == 2:
            # column-major rows x cols is row-major cols x rows
            self.eqs(e, [('rows', C('n'), src.cols), ('columns', C('m'), src.rows)] + [(k, C(k), V[k]) for k in ('mu', 'tol', 'max_iter')] + [('max_jac_iter', C('max_jac_iter'), I(1))], '%s as the solver sees it')
            e.obl('func', eq(as_int(C('status')), I(0)), 'a failed run raises')
            return
        e.obl('func', as_bool(C('pixok')), 'the sample indices reach the solver, counted from zero')
        if self.which == 1:
            self.eqs(e, [('mrow', C('r'), V['mrow']), ('mcol', C('q'), V['mcol']), ('the number of measurements', C('n'), ln)], '%s reaches the solver')
            fld = dict(cgtol='cg_tol', cgmaxiter='cg_maxiter')
            self.eqs(e, [(k, C('opt.' + fld.get(k, k)), V[k]) for k in self.flist], 'option %s reaches the solver')
            self.eqs(e, [(f, C('opt.' + f), w) for f, w in (('cg_verbose', I(0)), ('dct_mode', I(1)))], 'option %s has its documented value')
            base = e.st
            e.st = base.copy()
            e.assume(eq(self.nl, I(2)), 'c')
            s = self.out(e, st, 1, 'the second output')
            if s is not None:
                e.obl('func', TRUE if set(getattr(s, 'names', ())) == {'l1', 'total_newton_iter', 'total_cg_iter', 'status'} else FALSE, 'the second output has the documented fields')
                for k in getattr(s, 'names', ()):
                    q = st.cells.get((s, (k,)), UNDEF)
                    if isinstance(q, Maybe):
                        e.obl('func', q.cond, 'field %s is set' % k)
                        q = q.val
                    if not isinstance(q, Ptr) or q.obj is None:
                        e.obl('func', FALSE, 'field %s is set' % k)
                        continue
                    e.obl('func', not_(q.null), 'field %s is set' % k)
                    w = C('res.' + k)
                    if k == 'status':
                        w = ite(ne(as_int(C('status')), I(0)), as_int(C('status')), as_int(w))
                    self.one(e, st, q.obj, w, 'field %s' % k)
            e.st = base
        else:
            self.eqs(e, [('rows', C('r'), V['mcol']), ('columns', C('q'), V['mrow']), ('the number of measurements', C('n'), ln)], '%s as the transforms see them')
            self.eqs(e, [('between columns', C('alpha_h'), V['alpha_v']), ('between rows', C('alpha_v'), V['alpha_h']), ('dct_mode', C('dct_mode'), V['dct_mode']), ('bp_mode', C('bp_mode'), V['bp_mode'])], 'option %s reaches the transforms')
            self.eqs(e, [(k, C('opt.' + k), V[k]) for k in ('sigma', 'mu', 'tol', 'n_continue', 'verbose')], 'option %s reaches the solver')
            self.eqs(e, [('the number of unknowns', C('nm'), e.pymx[1]), ('the number of measurements', C('nn'), ln)], '%s reaches the solver')
            e.obl('func', eq(as_int(C('setup')), I(0)), 'a failed set-up raises')
            s = self.out(e, st, 1, 'the second output')
            if s is not None:
                self.one(e, st, s, C('status'), 'the second output')


def hook(name, pix_at):
    """note whether the indices given to the library are the caller's, counted from zero"""
    c = CONTRACTS[name]
    f = c.apply
    def g(e, a, n):
        if hasattr(e, 'mexc') and e.mexc.which != 2:
            s = e.mexc
            v = e.rview(a[pix_at], as_int(a[3] if name == 'l1qc_dct' else a[0]), n, 'sample indices')
            e.st.cells[(CALL, ('pixok',))] = forall(s.nb, lambda k: eq(app(v, k), s.ix(k)))
        return f(e, a, n)
    c.apply = g


hook('l1qc_dct', 5)
hook('l1c_setup_dctTV_transforms', 7)

Mex('mex.l1qc_dct', 'l1qc_dct_mex.c', 1, 1, [('mrow', 'int'), ('mcol', 'int'), ('b', 'vector'), ('pix_idx', 'vector'), ('opts', 'struct')],
    dict(epsilon='scalar', mu='scalar', tau='scalar', newton_tol='scalar', lbtol='scalar', l1_tol='scalar', cgtol='scalar', warm_start_cg='int', verbose='int', newton_max_iter='int', cgmaxiter='int', lbiter='int'))
Mex('mex.breg_anistropic_TV', 'breg_anistropic_TV_mex.c', 2, 1, [('img', 'image'), ('mu', 'scalar'), ('tol', 'scalar'), ('max_iter', 'int')], {})
Mex('mex.nesta_dctTV', 'nesta_dctTV_mex.c', 3, 2, [('mrow', 'int'), ('mcol', 'int'), ('b', 'vector'), ('pix_idx', 'vector'), ('opts', 'struct')],
    dict(sigma='scalar', verbose='int', mu='scalar', tol='scalar', n_continue='int', alpha_v='scalar', alpha_h='scalar', dct_mode='dct', bp_mode='mode'))
