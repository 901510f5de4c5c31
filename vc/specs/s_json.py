"""Contracts of json_utils.c over models of stdio and cJSON (both external: their behaviour is assumed as stated here).

A FILE is a resource with a position, a size and a content; seeking works or not (pipes); a read may come up short.  A parsed
document maps a name to an item; an item has a type, an int and a double value, and a list of children."""
from contract import *
import s_mem
from s_mem import heap_arr

J = 'json_utils.c'
G = Obj('json ghost', 'cells')
GT = Obj('parsed text', 'arr', 'I', None)
LMAX = 2**63 - 1


# ---------------------------------------------------------------- stdio
def strname(p):
    return p.obj if isinstance(p, Ptr) else None


@L.lib('fopen')
def _fopen(e, a, n):
    mode = getattr(a[1].obj, 'text', None) if isinstance(a[1], Ptr) else None
    if mode is None:
        raise Unsupported('fopen with a computed mode')
    e.obl('func', TRUE if mode.strip('"') in ('r', 'rb', 'rt') else FALSE, 'files are opened for reading only', n)
    if (G, ('size',)) not in e.st.cells:
        raise Unsupported('fopen outside a file contract')
    e.obl('func', TRUE if strname(a[0]) is e.fname_obj else FALSE, 'the file of the given name is opened', n)
    o = Obj('FILE', 'cells', heap=True)
    nb = fresh('null', 'B')
    o.nofile = nb
    e.st.live[o] = not_(nb)
    e.st.cells[(o, ('pos',))] = I(0)
    e.st.cells[(G, ('opened',))] = not_(nb)
    return Ptr(o, None, nb)


def stream(e, p, n):
    if not isinstance(p, Ptr) or p.obj is None or (p.obj, ('pos',)) not in e.st.cells:
        raise Unsupported('stream %r' % (p,))
    e.obl('live', not_(p.null), 'stream is not null', n)
    e.obl('live', or_(e.st.live[p.obj], p.null) if p.obj in e.st.live else TRUE, 'stream is open', n)
    return p.obj


@L.lib('fclose')
def _fclose(e, a, n):
    o = stream(e, a[0], n)
    e.obl('alloc', TRUE if o.heap else FALSE, 'only a stream opened here is closed', n)
    e.st.live[o] = FALSE
    r = fresh('c!rc', 'I')
    return r


@L.lib('fseek', 'fseeko')
def _fseek(e, a, n):
    o = stream(e, a[0], n)
    wh = is_const(as_int(a[2]))
    sk, size = e.st.cells[(G, ('seek',))], e.st.cells[(G, ('size',))]
    pos = e.st.cells[(o, ('pos',))]
    if wh is None or (wh == 2 and is_const(as_int(a[1])) != 0):
        raise Unsupported('fseek')
    new = {0: as_int(a[1]), 1: pos + as_int(a[1]), 2: size}[int(wh)]
    e.st.cells[(o, ('pos',))] = ite(sk, new, pos)
    return ite(sk, I(0), I(-1))


@L.lib('ftell', 'ftello')
def _ftell(e, a, n):
    o = stream(e, a[0], n)
    return ite(e.st.cells[(G, ('seek',))], e.st.cells[(o, ('pos',))], I(-1))


@L.lib('rewind')
def _rewind(e, a, n):
    o = stream(e, a[0], n)
    e.st.cells[(o, ('pos',))] = ite(e.st.cells[(G, ('seek',))], I(0), e.st.cells[(o, ('pos',))])
    return None


def as_bytes(e, p, n):
    if not isinstance(p, Ptr) or p.obj is None:
        raise Unsupported('buffer %r' % (p,))
    o = p.obj
    if o.kind == 'raw':
        o.kind, o.elem, o.len, o.rtype = 'arr', 'I', o.bytes, 'char'
        e.st.arrs[o] = vlam(lambda q: I(0), 'I') if o.zero else vatom('heap_%d' % o.id, 'I')
        if not o.zero:
            e.st.init[o] = vlam(lambda q: I(0), 'I')
    if o.kind != 'arr' or o.elem != 'I' or o.rtype != 'char':
        raise Unsupported('buffer %r' % (p,))
    return p


@L.lib('fread')
def _fread(e, a, n):
    p = as_bytes(e, a[0], n)
    size, nm = as_int(a[1]), as_int(a[2])
    o = stream(e, a[3], n)
    e.obl('safety', le(size * nm, I(2**64 - 1)), 'fread: the number of bytes is representable', n)
    e.check_access(p, size * nm, n, 'fread')
    k = fresh('c!items', 'I')
    pos = e.st.cells[(o, ('pos',))]
    C_ = e.st.arrs[e.content]
    e.assume(and_(ge(k, I(0)), le(k, nm), implies(eq(size, I(0)), eq(k, I(0)))))
    sk, fsz = e.st.cells[(G, ('seek',))], e.st.cells[(G, ('size',))]
    e.assume(or_(not_(sk), eq(k, I(0)), le(pos + k * size, fsz)))
    full = and_(eq(k, nm), gt(size, I(0)))
    junk = fresh_vec('c!junk', 'I')
    got = k * size
    v = vlam(lambda j: ite(lt(j, got), app(C_, pos + j), app(junk, j)), 'I')
    e.mute += 1
    e.wview(p, size * nm, v, n)
    e.mute -= 1
    ok = e.st.cells[(G, ('read',))]
    e.st.cells[(G, ('read',))] = and_(ok, full)
    np_ = fresh('c!pos', 'I')
    e.assume(implies(full, eq(np_, pos + got)))
    e.st.cells[(o, ('pos',))] = np_
    return k


@L.lib('strerror', '__errno_location')
def _strerror(e, a, n):
    o = Obj('string', 'cells')
    e.st.cells[(o, ())] = fresh('c!errno', 'I')
    return Ptr(o)


@L.lib('cJSON_GetErrorPtr')
def _errptr(e, a, n):
    # the place of the error in the text parsed last
    o = getattr(e, 'parsed', None)
    return Ptr(o if o is not None else _strerror(e, a, n).obj, fresh('c!at', 'I'), fresh('null', 'B'))


# ---------------------------------------------------------------- cJSON
@L.lib('cJSON_Parse')
def _parse(e, a, n):
    p = as_bytes(e, a[0], n)
    o = p.obj
    e.check_access(p, I(1), n, 'cJSON_Parse')
    e.obl('safety', and_(eq(p.off, I(0)), or_(eq(app(e.st.arrs[o], o.len - I(1)), I(0)), p.null)), 'cJSON_Parse: text is terminated', n)
    if o in e.st.init:
        e.check_init(p, o.len, n)
    d = Obj('document', 'cells', heap=True, rtype='cJSON')
    nb = fresh('null', 'B')
    d.parsefail = nb
    e.parsed = o
    e.st.live[d] = not_(nb)
    if (G, ('parses',)) in e.st.cells:
        e.st.cells[(G, ('parses',))] = as_int(e.st.cells[(G, ('parses',))]) + I(1)
        e.st.arrs[GT] = e.st.arrs[o]
        e.st.cells[(G, ('tlen',))] = o.len
        e.st.cells[(G, ('pfail',))] = nb
    return Ptr(d, None, nb)


@L.lib('cJSON_Delete')
def _delete(e, a, n):
    p = a[0]
    if p.obj is None:
        return None
    e.obl('alloc', or_(p.null, e.st.live.get(p.obj, FALSE)), 'a document is released at most once', n)
    if p.obj in e.st.live:
        e.st.live[p.obj] = and_(e.st.live[p.obj], p.null) if p.null is not FALSE else FALSE
    return None


KINDS = (('isnum', 'number'), ('isarr', 'array'), ('isobj', 'object'), ('isstr', 'string'), ('istrue', 'true'), ('isfalse', 'false'), ('isnul', 'null'), ('israw', 'raw'))


def item(e, name):
    o = Obj(name, 'cells', rtype='cJSON')
    ch = Obj(name + ' children', 'list')
    ch.len = e.fresh_int('len', 0, 2**31 - 1)
    ch.fields = {f: fresh_vec('c!' + f, s) for f, s in (('valuedouble', 'R'), ('valueint', 'I'), ('type', 'I'))}
    e.st.cells[(o, ('child',))] = Ptr(ch)
    e.st.cells[(o, ('valuedouble',))] = D(fresh('c!valuedouble', 'R'))
    e.st.cells[(o, ('valueint',))] = e.fresh_int('c!valueint', -2**31, 2**31 - 1)
    ks = []
    for f, tag in KINDS:
        b = fresh('c!is' + tag, 'B')
        setattr(o, f, b)
        e.assume(not_(and_(b, or_(*ks))))
        ks.append(b)
    o.isbool = or_(o.istrue, o.isfalse)
    o.missing = fresh('c!missing', 'B')
    o.children = ch
    return o


@L.lib('cJSON_GetObjectItem')
def _getitem_ci(e, a, n):
    return _getitem(e, a, n, False)          # matches names regardless of case: some other item


@L.lib('cJSON_GetObjectItemCaseSensitive')
def _getitem(e, a, n, exact=True):
    d, nm = a
    if not isinstance(d, Ptr) or d.obj is None or not exact or d.obj is not e.doc or strname(nm) is not e.key:
        o = item(e, 'other item')
    else:
        o = e.item
    return Ptr(o, None, or_(o.missing, d.null) if isinstance(d, Ptr) else TRUE)


def kind_of(flag, tag):
    def f(e, a, n):
        p = a[0]
        if not isinstance(p, Ptr) or p.obj is None:
            return I(0)
        if p.obj.kind == 'list':
            return ite(and_(not_(isnull(p)), eq(uf('c!is' + tag, 'I', app(p.obj.fields['type'], p.off)), I(1))), I(1), I(0))
        if not hasattr(p.obj, flag):
            raise Unsupported('type of %r' % p)
        return ite(and_(not_(p.null), getattr(p.obj, flag)), I(1), I(0))
    return f


for _fn, _fl, _tag in (('Number', 'isnum', 'number'), ('Array', 'isarr', 'array'), ('Object', 'isobj', 'object'), ('String', 'isstr', 'string'), ('True', 'istrue', 'true'),
                       ('False', 'isfalse', 'false'), ('NULL', 'isnul', 'null'), ('Raw', 'israw', 'raw'), ('Bool', 'isbool', 'bool')):
    L.lib('cJSON_Is' + _fn)(kind_of(_fl, _tag))


@L.lib('cJSON_HasObjectItem')
def _hasitem(e, a, n):
    return ite(_getitem(e, a, n, False).null, I(0), I(1))


@L.lib('cJSON_GetArraySize')
def _asize(e, a, n):
    p = a[0]
    if p.obj is None:
        return I(0)
    return ite(p.null, I(0), p.obj.children.len) if p.null is not FALSE else p.obj.children.len


@L.lib('cJSON_GetArrayItem')
def _aitem(e, a, n):
    p, k = a[0], as_int(a[1])
    if p.obj is None:
        return NULL
    c = p.obj.children
    return Ptr(c, ite(and_(ge(k, I(0)), lt(k, c.len)), k, c.len), p.null)


@L.lib('cJSON_GetNumberValue')
def _nval(e, a, n):
    p = a[0]
    num = kind_of('isnum', 'number')(e, a, n)
    v = app(p.obj.fields['valuedouble'], p.off) if p.obj.kind == 'list' else as_d(e.st.cells[(p.obj, ('valuedouble',))]).t
    return D(v, eq(num, I(0)))


# ---------------------------------------------------------------- files
def fghost(e):
    e.fname_obj = Obj('fname', 'str')
    e.st.cells[(e.fname_obj, ())] = I(0)
    e.st.cells[(G, ('size',))] = e.fresh_int('size', 0, LMAX)
    e.st.cells[(G, ('seek',))] = fresh('seekable', 'B')
    e.st.cells[(G, ('opened',))] = FALSE
    e.st.cells[(G, ('read',))] = TRUE
    e.content = Obj('file content', 'arr', 'I', I(LMAX))
    e.st.arrs[e.content] = vatom('content', 'I')


def outcell(e, nm, val=UNDEF, rtype='void *'):
    o = Obj(nm, 'cells', rtype=rtype)
    e.st.cells[(o, ())] = val
    return Ptr(o)


class FileLength(Contract):
    """size of a seekable file (-1 otherwise); the file is left at its start"""
    def __init__(self):
        Contract.__init__(self, 'get_file_length', J, [('file_ptr', 'val', None)], None, scenarios=[self.setup])

    def setup(self, e):
        fghost(e)
        o = Obj('FILE', 'cells')
        e.st.cells[(o, ('pos',))] = ite(e.st.cells[(G, ('seek',))], e.fresh_int('pos', 0), I(0))
        self.o = o
        return [Ptr(o)]

    def check(self, e, s0, args, outs):
        for oc in outs:
            e.st = oc.st.copy()
            sk, size = s0.cells[(G, ('seek',))], s0.cells[(G, ('size',))]
            e.obl('func', eq(as_int(oc.val), ite(sk, size, I(-1))), 'the length is that of the file, -1 where it has none')
            e.obl('func', eq(oc.st.cells[(self.o, ('pos',))], I(0)), 'the file is left at its start')
            for o, l in oc.st.live.items():
                e.obl('alloc', not_(l), 'nothing is retained')

    def apply(self, e, args, node):
        o = stream(e, args[0], node)
        sk, size = e.st.cells[(G, ('seek',))], e.st.cells[(G, ('size',))]
        e.st.cells[(o, ('pos',))] = ite(sk, I(0), e.st.cells[(o, ('pos',))])
        return ite(sk, size, I(-1))


FileLength()


class LoadText(Contract):
    def __init__(self):
        Contract.__init__(self, 'load_file_as_text', J, [('fname', 'val', None), ('file_data', 'val', None)], None, scenarios=[self.setup])

    def setup(self, e):
        fghost(e)
        self.out = outcell(e, 'file_data', rtype='char *')
        return [Ptr(e.fname_obj), self.out]

    def check(self, e, s0, args, outs):
        size, sk = s0.cells[(G, ('size',))], s0.cells[(G, ('seek',))]
        C_ = s0.arrs[e.content]
        got = set()
        for oc in outs:
            st = oc.st
            v = as_int(oc.val)
            p = st.cells[(self.out.obj, ())]
            if isinstance(p, Maybe):
                p = p.val
            nulls = or_(*[o.nullvar for o in st.live if getattr(o, 'nullvar', None) is not None])
            opened, read = st.cells[(G, ('opened',))], st.cells[(G, ('read',))]
            for good in (True, False):
                e.st = st.copy()
                e.assume(eq(v, I(0)) if good else ne(v, I(0)), 'c')
                if P.sat(e.hyps(), 1) == 'unsat':
                    continue
                got.add(good)
                for o, l in st.live.items():
                    if not (good and isinstance(p, Ptr) and o is p.obj):
                        e.obl('alloc', not_(l), '%s acquired here is released %s' % (o.name, 'although the read succeeds' if good else 'when the read fails'))
                if not good:
                    e.obl('func', or_(not_(opened), not_(sk), nulls, not_(read), eq(size, I(0)), ge(size, I(LMAX))), 'a readable non-empty file is not reported as unreadable')
                    continue
                e.obl('func', and_(opened, sk), 'a file that cannot be opened is reported')
                if not isinstance(p, Ptr) or p.obj is None or p.obj not in st.arrs:
                    e.obl('func', FALSE, 'the text is returned')
                    continue
                e.obl('func', and_(not_(p.null), eq(p.off, I(0))), 'memory exhaustion is reported')
                e.obl('alloc', st.live.get(p.obj, FALSE), 'the returned text is live')
                e.obl('func', gt(p.obj.len, size), 'the whole text is returned')
                a = st.arrs[p.obj]
                e.obl('func', forall(size, lambda k: eq(app(a, k), app(C_, k))), 'the text is the content of the file')
                e.obl('func', eq(app(a, size), I(0)), 'the text is terminated')
        if got != {True, False}:
            e.obl('func', FALSE, 'success and failure are both possible')

    def apply(self, e, args, node):
        e.obl('func', TRUE if strname(args[0]) is e.fname_obj else FALSE, 'the file of the given name is read', node)
        v = e.fresh_int('c!status', 0, 1)
        size = e.st.cells[(G, ('size',))]
        o = Obj('text', 'arr', 'I', size + I(1), True)
        o.rtype = 'char'
        e.st.live[o] = eq(v, I(0))
        C_ = e.st.arrs[e.content]
        e.st.arrs[o] = vlam(lambda k: ite(lt(k, size), app(C_, k), I(0)), 'I')
        e.assume(implies(eq(v, I(0)), lt(size, I(LMAX))))
        lv = e.deref(args[1], node)
        old = e.st.cells.get((lv[1], lv[2]), UNDEF)
        e.lv_write(lv, Maybe(eq(v, I(0)), Ptr(o)), node)
        e.st.cells[(G, ('loaded',))] = eq(v, I(0))
        return v


LoadText()


class LoadJson(Contract):
    def __init__(self):
        Contract.__init__(self, 'load_file_to_json', J, [('fname', 'val', None), ('data_json', 'val', None)], None, scenarios=[self.setup])

    def setup(self, e):
        fghost(e)
        e.st.cells[(G, ('loaded',))] = FALSE
        e.st.cells[(G, ('parses',))] = I(0)
        e.st.cells[(G, ('tlen',))] = I(0)
        e.st.cells[(G, ('pfail',))] = FALSE
        GT.len = e.st.cells[(G, ('size',))]
        e.st.arrs[GT] = fresh_vec('c!text', 'I')
        self.out = outcell(e, 'data_json', rtype='cJSON *')
        return [Ptr(e.fname_obj), self.out]

    def check(self, e, s0, args, outs):
        size = s0.cells[(G, ('size',))]
        C_ = s0.arrs[e.content]
        got = set()
        for oc in outs:
            st = oc.st
            v = as_int(oc.val)
            p = st.cells[(self.out.obj, ())]
            if isinstance(p, Maybe):
                p = p.val
            for good in (True, False):
                e.st = st.copy()
                e.assume(eq(v, I(0)) if good else ne(v, I(0)), 'c')
                if P.sat(e.hyps(), 1) == 'unsat':
                    continue
                got.add(good)
                for o, l in st.live.items():
                    if not (good and isinstance(p, Ptr) and o is p.obj):
                        e.obl('alloc', not_(l), '%s acquired here is released when the load %s' % (o.name, 'succeeds' if good else 'fails'))
                loaded, pf, n_ = st.cells[(G, ('loaded',))], st.cells[(G, ('pfail',))], as_int(st.cells[(G, ('parses',))])
                if not good:
                    e.obl('func', or_(not_(loaded), pf), 'a readable file holding JSON is not rejected')
                    continue
                e.obl('func', loaded, 'an unreadable file is reported')
                e.obl('func', eq(n_, I(1)), 'the text is parsed')
                if not isinstance(p, Ptr) or p.obj is None:
                    e.obl('func', FALSE, 'the document is returned')
                    continue
                e.obl('func', not_(p.null), 'a text that is not JSON is reported')
                e.obl('alloc', st.live.get(p.obj, FALSE), 'the returned document is live')
                t = st.arrs[GT]
                e.obl('func', and_(forall(size, lambda k: eq(app(t, k), app(C_, k))), gt(as_int(st.cells[(G, ('tlen',))]), size), eq(app(t, size), I(0))), 'what is parsed is the content of the file')
        if got != {True, False}:
            e.obl('func', FALSE, 'success and failure are both possible')


LoadJson()


# ---------------------------------------------------------------- values
class Extract(Contract):
    def __init__(self, name, field, arr):
        self.field, self.arr = field, arr
        Contract.__init__(self, name, J, [], None, scenarios=[self.setup])

    def setup(self, e):
        e.doc = Obj('document', 'cells', rtype='cJSON')
        e.key = Obj('name', 'str')
        e.st.cells[(e.key, ())] = I(0)
        e.item = item(e, 'item')
        self.dn = fresh('c!nodoc', 'B')
        d = Ptr(e.doc, None, self.dn)
        real = self.field == 'valuedouble'
        if not self.arr:
            self.v0 = D(var('old', 'R')) if real else e.fresh_int('old', -2**31, 2**31 - 1)
            self.out = outcell(e, 'out', self.v0, 'double' if real else 'int')
            return [d, Ptr(e.key), self.out]
        self.out, self.N0 = outcell(e, 'x', UNDEF, 'double *' if real else 'int *'), e.fresh_int('N', -2**31, 2**31 - 1)
        self.N = outcell(e, 'N', self.N0, 'int')
        return [d, Ptr(e.key), self.out, self.N]

    def check(self, e, s0, args, outs):
        it = e.item
        found = and_(not_(self.dn), not_(it.missing), it.isarr if self.arr else it.isnum)
        real = self.field == 'valuedouble'
        got = set()
        for oc in outs:
            st = oc.st
            v = as_int(oc.val)
            nulls = or_(*[o.nullvar for o in st.live if getattr(o, 'nullvar', None) is not None])
            q = st.cells[(self.out.obj, ())]
            for good in (True, False):
                e.st = st.copy()
                e.assume(eq(v, I(0)) if good else ne(v, I(0)), 'c')
                if P.sat(e.hyps(), 1) == 'unsat':
                    continue
                got.add(good)
                p = q.val if isinstance(q, Maybe) else q
                for o, l in st.live.items():
                    if not (good and self.arr and isinstance(p, Ptr) and o is p.obj):
                        e.obl('alloc', not_(l), '%s acquired here is released %s' % (o.name, '' if good else 'on failure'))
                if not good:
                    e.obl('func', or_(not_(found), nulls), 'a stored value of the right type is not rejected')
                    if self.arr:
                        n1 = as_int(st.cells[(self.N.obj, ())])
                        base = e.st
                        e.st = base.copy()
                        e.assume(not_(nulls), 'c')
                        if P.sat(e.hyps(), 1) != 'unsat':
                            e.obl('func', or_(eq(n1, I(0)), and_(self.dn, eq(n1, self.N0))), 'no elements are claimed when there is no such array')
                        e.st = base
                    else:
                        e.obl('func', eq_val(p, self.v0), 'the output is left alone on failure')
                    continue
                e.obl('func', found, 'a missing document, a missing name and a value of another type are reported')
                if not self.arr:
                    e.obl('func', eq_val(p, st.cells[(it, (self.field,))]), 'the stored value is returned')
                    continue
                ln = it.children.len
                e.obl('func', eq_val(st.cells[(self.N.obj, ())], ln), 'the number of elements is that stored')
                if not isinstance(p, Ptr) or p.obj is None or p.obj not in st.arrs:
                    e.obl('func', FALSE, 'the elements are returned')
                    continue
                e.obl('func', or_(not_(p.null), le(ln, I(0))), 'memory exhaustion is reported')
                e.obl('alloc', or_(st.live.get(p.obj, FALSE), p.null), 'the returned elements are live')
                e.obl('func', or_(ge(p.obj.len, ln), p.null), 'there is room for every element')
                if real:
                    e.obl('align', TRUE if p.obj.aligned else FALSE, 'the elements are 64-byte aligned')
                a, want = st.arrs[p.obj], it.children.fields[self.field]
                e.obl('func', forall(ln, lambda k: eq(app(a, k), app(want, k))), 'the elements are those stored, in order')
                if p.obj in st.init:
                    iv = st.init[p.obj]
                    e.obl('uninit', forall(ln, lambda k: eq(app(iv, k), I(1))), 'every element is set')
        if got != {True, False}:
            e.obl('func', FALSE, 'success and failure are both possible')


Extract('extract_json_int', 'valueint', False)
Extract('extract_json_double', 'valuedouble', False)
Extract('extract_json_double_array', 'valuedouble', True)
Extract('extract_json_int_array', 'valueint', True)


def _name(e, vals):
    """a caller's string"""
    k = e.fresh_int('name_len', 1, 2**31 - 1)
    return Ptr(e.new_arr('name', k, 'I'))


Contract('print_vec', J, [('N', 'int'), ('x', 'arr', 'N', 'in'), ('name', 'val', _name)], None)
