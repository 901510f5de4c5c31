"""Contracts of l1c_memory.c: allocation returns either null (nothing retained) or one live block of the documented
size, alignment and content; release is exactly-once."""
from contract import *

M = 'l1c_memory.c'


class AllocContract(Contract):
    def check(self, e, s0, args, outs):
        for oc in outs:
            st = oc.st
            e.st = st.copy()
            r = oc.val
            if not isinstance(r, Ptr):
                e.obl('alloc', FALSE, 'returns a pointer')
                continue
            r = simp_ptr(e, r)
            keep = self.blocks(e, self.named(args), r)
            fails = [o.nullvar for o in st.live if o not in s0.live and getattr(o, 'nullvar', None) is not None]
            e.obl('alloc', iff(r.null, or_(*fails)), 'null is returned exactly when an allocation failed')
            for o, l in st.live.items():
                if o in s0.live:
                    e.obl('alloc', iff(l, s0.live[o]), '%s is not touched' % o.name)
                elif o in keep:
                    e.obl('alloc', or_(r.null, l), '%s is live when a non-null pointer is returned' % o.name)
                    e.obl('alloc', or_(not_(r.null), not_(l)), '%s is released when null is returned' % o.name)
                else:
                    e.obl('alloc', not_(l), '%s is released on every path' % o.name)

    def arr_block(self, e, p, N, zero, what):
        if p.null is TRUE:
            return set()
        o = p.obj
        if o.kind == 'raw':
            e.ptr_cast(p, 'double *', None)
        e.obl('alloc', or_(p.null, eq(p.off, I(0))), '%s points at the start of its block' % what)
        e.obl('align', or_(p.null, TRUE if o.aligned else FALSE), '%s is 64-byte aligned' % what)
        e.obl('safety', or_(p.null, ge(o.len, N)), '%s has room for N doubles' % what)
        if zero:
            v = e.st.arrs[o]
            iv = e.st.init.get(o)
            e.obl('func', implies(not_(p.null), forall(N, lambda k: eq(app(v, k), R(0)))), '%s is all zeros' % what)
        return {o}


def simp_ptr(e, p):
    n = e.simp_bool(p.null)
    return Ptr(p.obj, p.off, n, p.path)


def _blk1(zero):
    def f(self, e, A, r):
        return self.arr_block(e, r, A['N'], zero, 'the returned array')
    return f


def _blk2(zero):
    def f(self, e, A, r):
        if r.null is TRUE:
            return set()
        o = r.obj
        if o.kind != 'ptrs':
            e.obl('alloc', FALSE, 'returns an array of pointers')
            return {o}
        keep = {o}
        n = is_const(A['nrow'])
        for i in range(int(n)):
            p = e.st.cells.get((o, (i,)), UNDEF)
            if isinstance(p, Maybe):
                e.obl('alloc', or_(r.null, p.cond), 'row %d is set' % i)
                p = p.val
            if not isinstance(p, Ptr):
                e.obl('alloc', r.null, 'row %d is a pointer' % i)
                continue
            e.obl('alloc', or_(r.null, not_(p.null)), 'row %d is allocated' % i)
            q = Ptr(p.obj, p.off, r.null, p.path)
            if q.obj is not None:
                if q.obj in keep:
                    e.obl('alloc', FALSE, 'rows are distinct')
                keep |= self.arr_block(e, q, A['ncol'], zero, 'row %d' % i)
        return keep
    return f


def heap_arr(e, N, zero=False, name='heap', null=None):
    o = Obj(name, 'arr', 'R', N, True, True)
    nb = fresh('null', 'B') if null is None else null
    o.nullvar = nb
    e.st.live[o] = not_(nb)
    if zero:
        e.st.arrs[o] = vconst(0)
    else:
        e.st.arrs[o] = vatom('heap_%d' % o.id)
        e.st.init[o] = vlam(lambda k: I(0), 'I')
    return Ptr(o, None, nb)


def _alloc(zero):
    def f(e, A, node):
        return heap_arr(e, A['N'], zero)
    return f


def _alloc2(zero):
    def f(e, A, node):
        n = is_const(e.simp(A['nrow']))
        if n is None:
            raise Unsupported('row count is not a constant')
        o = Obj('rows', 'ptrs', None, I(int(n)), True)
        nb = fresh('null', 'B')
        o.nullvar = nb
        e.st.live[o] = not_(nb)
        for i in range(int(n)):
            p = heap_arr(e, A['ncol'], zero, 'row%d' % i, nb)
            e.st.cells[(o, (i,))] = Ptr(p.obj, None, FALSE)
        return Ptr(o, None, nb)
    return f


def _free(e, A, node):
    L.LIB['free'](e, [A['x']], node)


def _free2(e, A, node):
    p = A['ddptr']
    n = is_const(e.simp(A['nrow']))
    if p.null is TRUE:
        return
    if n is None or p.obj.kind != 'ptrs':
        raise Unsupported('free_double_2D')
    e.obl('alloc', or_(p.null, eq(p.obj.len, I(int(n)))), 'row count given to the release is that of the array', node)
    base = e.st
    for i in range(int(n)):
        q = base.cells[(p.obj, (i,))]
        if not isinstance(q, Ptr):
            raise Unsupported('row of %r' % (p,))
        L.LIB['free'](e, [Ptr(q.obj, q.off, or_(p.null, q.null), q.path)], node)
    L.LIB['free'](e, [p], node)


c = AllocContract('l1c_malloc_double', M, [('N', 'int', 0)], _alloc(False))
c.blocks = _blk1(False).__get__(c)
c = AllocContract('l1c_calloc_double', M, [('N', 'int', 0)], _alloc(True))
c.blocks = _blk1(True).__get__(c)


def sc2(n):
    def f(e):
        v = e.fresh_int('ncol', 0, 2**31 - 1)
        return [I(n), v]
    return f


for nm, z in (('l1c_malloc_double_2D', False), ('l1c_calloc_double_2D', True)):
    c = AllocContract(nm, M, [('nrow', 'int', 0), ('ncol', 'int', 0)], _alloc2(z), scenarios=[sc2(k) for k in range(0, 8)])
    c.blocks = _blk2(z).__get__(c)


def sc_free(e):
    p = heap_arr(e, e.fresh_int('N', 0), name='x')
    return [p]


Contract('l1c_free_double', M, [('x', 'val')], _free, scenarios=[sc_free])


def sc_free2(n):
    def f(e):
        p = _alloc2(False)(e, dict(nrow=I(n), ncol=e.fresh_int('ncol', 0)), None)
        return [I(n), p]
    return f


Contract('l1c_free_double_2D', M, [('nrow', 'int'), ('ddptr', 'val')], _free2, scenarios=[sc_free2(k) for k in range(0, 8)])
MEM = ['l1c_malloc_double', 'l1c_calloc_double', 'l1c_malloc_double_2D', 'l1c_calloc_double_2D', 'l1c_free_double', 'l1c_free_double_2D']
