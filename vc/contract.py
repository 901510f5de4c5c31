"""Contract framework: a contract has scenarios (symbolic pre-states), an effect usable by callers (apply) and a
check of the real body against that effect (frame included) or against named relational postconditions."""
import time, traceback
from terms import *
import terms as T
import prover as P
import exec as X
from exec import *
from exec import as_d, as_int, as_bool
import loops
import lib as L

CONTRACTS = {}
GDEFS = {}     # opaque vector operators with a definition, unfolded where a contract or lemma asks for it


class Contract:
    """params: list of (name, kind, extra) -- see setup_args; effect(eng, A, node) performs the specified effect on eng.st
    and returns the specified return value."""
    name = None
    file = None
    alias_ok = ()      # pairs (i,j) of parameter indices that may be the same array

    def __init__(self, name, file, params, effect, pre=None, scenarios=None, posts=None, callpre=None, inline=False, key=None,
                 ret_det=True, hints=None, frame=True):
        self.name, self.file, self.params, self.effect, self.pre = name, file, params, effect, pre
        self.scenarios = scenarios or [self.default_setup]
        self.posts = posts
        self.callpre = callpre
        self.key = key or name
        self.hints = hints
        self.frame = frame
        self.noapply = effect is None
        CONTRACTS[self.key] = self

    def default_setup(self, e):
        A = []
        vals = {}
        for (nm, kind, *ex) in self.params:
            if kind == 'int':
                v = var(nm, 'I')
                e.assume(and_(ge(v, I(-2**31)), le(v, I(2**31 - 1))))
                if ex and ex[0] is not None:
                    e.assume(ge(v, I(ex[0])))
                A.append(v)
            elif kind == 'real':
                v = D(var(nm, 'R'))
                A.append(v)
            elif kind in ('arr', 'arru', 'iarr'):
                ln = ex[0](vals) if callable(ex[0]) else vals[ex[0]]
                o = e.new_arr(nm, tmax(ln, I(0)) if e.decide(ge(ln, I(0))) is not True else ln, 'I' if kind == 'iarr' else 'R', aligned=True)
                if len(ex) > 1 and ex[1] == 'out':
                    e.st.init[o] = vlam(lambda k: I(0), 'I')
                v = Ptr(o)
                A.append(v)
            elif kind == 'val':
                v = ex[0](e, vals)
                A.append(v)
            else:
                raise Exception(kind)
            vals[nm] = A[-1]
        if self.pre:
            c = self.pre(e, vals)
            if c is not None:
                e.assume(c)
        return A

    def named(self, args):
        return {p[0]: a for p, a in zip(self.params, args)}

    def apply(self, e, args, node):
        """used at call sites"""
        A = []
        for (nm, kind, *ex), a in zip(self.params, args):
            if kind == 'real':
                a = as_d(a)
            elif kind == 'int':
                a = as_int(a)
            A.append(a)
        vals = self.named(A)
        for (nm, kind, *ex), a in zip(self.params, A):
            if kind == 'int' and ex and ex[0] is not None:
                e.obl('mpre', ge(a, I(ex[0])), '%s: %s >= %s' % (self.name, nm, ex[0]), node)
            if kind == 'arr' and isinstance(a, Ptr) and a.obj is not None and not e.mute:
                ln = ex[0](vals) if callable(ex[0]) else vals[ex[0]]
                if not a.obj.aligned or is_const(a.off) != 0:
                    e.obl('align', or_(and_(TRUE if a.obj.aligned else FALSE, eq(emod(a.off, I(8)), I(0))), a.null, le(ln, I(0))),
                          '%s: argument %s is 64-byte aligned' % (self.name, nm), node)
        # aliasing: distinct array parameters of which one is written must not be the same object
        ptrs = [(i, a) for i, a in enumerate(A) if isinstance(a, Ptr) and a.obj is not None and a.obj.kind == 'arr']
        if not e.mute and 'mpre' in e.cats:
            for i, a in ptrs:
                for j, b in ptrs:
                    if i < j and a.obj is b.obj and (i, j) not in self.alias_ok and (self.writes(i) or self.writes(j)):
                        ln = lambda q: (self.params[q][2](vals) if callable(self.params[q][2]) else vals[self.params[q][2]])
                        la, lb = ln(i), ln(j)
                        e.obl('mpre', or_(le(a.off + la, b.off), le(b.off + lb, a.off), le(la, I(0)), le(lb, I(0)), a.null, b.null),
                              '%s: arguments %s and %s do not overlap' % (self.name, self.params[i][0], self.params[j][0]), node)
        if self.pre:
            c = self.pre(e, vals)
            if c is not None:
                for d in (c.args if c.kind == 'and' else (c,)):
                    ints = not any(x.sort == 'R' or x.kind == 'vatom' for x in subterms_set(d))
                    e.obl('mpre' if ints else 'pre', d, '%s: precondition' % self.name, node)
        if self.callpre:
            self.callpre(e, vals, node)
        r = self.effect(e, vals, node)
        for w in self.work:
            p = vals[w]
            sp = [q for q in self.params if q[0] == w][0]
            if isinstance(p, Ptr) and len(sp) > 2 and sp[2] is not None:
                e.check_access(p, sp[2](vals) if callable(sp[2]) else vals[sp[2]], node, '%s: work array %s' % (self.name, w))
            if isinstance(p, Ptr) and p.obj is not None and p.obj.kind == 'arr':
                if is_const(p.off) == 0:
                    e.st.arrs[p.obj] = fresh_vec('c!' + w, p.obj.elem)
                elif len(sp) > 2 and sp[2] is not None:
                    e.mute += 1
                    try:
                        e.wview(p, sp[2](vals) if callable(sp[2]) else vals[sp[2]], fresh_vec('c!' + w, p.obj.elem), node)
                    finally:
                        e.mute -= 1
                else:
                    raise Unsupported('work array at an offset')
        return r

    def writes(self, i):
        p = self.params[i]
        return p[1] in ('arr', 'arru', 'iarr') and len(p) > 3 and p[3] in ('out', 'io')

    work = ()

    def work_objs(self, args):
        return {a.obj for p, a in zip(self.params, args) if p[0] in self.work and isinstance(a, Ptr)}

    # ---- verification of the body
    def check(self, e, s0, args, outs):
        """e: engine; s0: pre-state; outs: return outcomes of the real body"""
        for oc in outs:
            st = oc.st
            e.st = st.copy()
            if self.effect is not None:
                spec = s0.copy()
                spec.pc = st.pc
                e.mute += 1
                e.st = spec
                try:
                    r = self.effect(e, self.named(args), None)
                finally:
                    e.mute -= 1
                spec = e.st
                base = st.copy()
                base.pc = spec.pc
                e.st = base
                compare(e, s0, st, spec, oc.val, r, skip=self.work_objs(args))
            if self.posts:
                e.st = st.copy()
                self.posts(e, self.named(args), s0, st, oc.val)


def wellformed(e, fields, node, who):
    """what every function on a record of work arrays relies on: each (name, pointer, length) is live, long enough, aligned, and no two are the same"""
    if e.mute:
        return
    seen = {}
    for nm, p, ln in fields:
        if not isinstance(p, Ptr):
            e.obl('uninit', FALSE, '%s: %s is set' % (who, nm), node)
            raise Unsupported('%s is not set' % nm)
        e.check_access(p, ln, node, '%s: %s' % (who, nm))
        if p.obj is None:
            continue
        e.obl('align', TRUE if p.obj.aligned and is_const(p.off) == 0 else or_(and_(TRUE if p.obj.aligned else FALSE, eq(emod(p.off, I(8)), I(0))), p.null), '%s: %s is 64-byte aligned' % (who, nm), node)
        for q, lq, n2 in seen.get(p.obj, ()):
            e.obl('mpre', or_(le(p.off + ln, q.off), le(q.off + lq, p.off), le(ln, I(0)), le(lq, I(0))), '%s: %s and %s do not overlap' % (who, nm, n2), node)
        seen.setdefault(p.obj, []).append((p, ln, nm))


class Lemma:
    """a statement about contract functions only"""
    name = None
    file = None
    unfold = ()

    def __init__(self, name, body):
        self.name = self.key = name
        self.body = body
        CONTRACTS[name] = self


def eq_val(a, b):
    """formula a == b on values (None if incomparable)"""
    if a is b:
        return TRUE
    if isinstance(a, D) or isinstance(b, D):
        if not isinstance(a, (D, Term)) or not isinstance(b, (D, Term)):
            return FALSE
        a, b = as_d(a), as_d(b)
        if a.nan is FALSE and b.nan is FALSE:
            return eq(a.t, b.t)
        return and_(iff(a.nan, b.nan), or_(a.nan, eq(a.t, b.t)))
    if isinstance(a, Term) and isinstance(b, Term):
        if a.sort == 'B' and b.sort == 'B':
            return iff(a, b)
        return eq(as_int(a), as_int(b))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.obj is None or b.obj is None:
            return and_(a.null, b.null)
        if a.obj is not b.obj or a.path != b.path:
            return and_(a.null, b.null)
        return or_(and_(a.null, b.null), and_(iff(a.null, b.null), eq(a.off, b.off)))
    if isinstance(a, FnV) and isinstance(b, FnV):
        if a.key != b.key:
            return and_(a.null, b.null)
        return iff(a.null, b.null)
    if isinstance(a, Maybe) and isinstance(b, Maybe):
        return and_(iff(a.cond, b.cond), or_(not_(a.cond), eq_val(a.val, b.val)))
    return FALSE


def compare(e, s0, st, spec, rv, rs, what='', skip=()):
    if rs is not None:
        if rv is None:
            e.obl('func', FALSE, 'returns a value')
        elif isinstance(rs, SV):
            for p, v in rs.f.items():
                e.obl('func', eq_val(rv.f.get(p, UNDEF), v), 'return value %s as specified' % '.'.join(map(str, p)))
        else:
            e.obl('func', eq_val(rv, rs), 'return value as specified')
    for o in s0.arrs:
        if o not in st.arrs or o in skip:
            continue
        a, b = st.arrs[o], spec.arrs[o]
        changed = spec.arrs[o] is not s0.arrs[o]
        w = ('%s holds the specified values' if changed else '%s is left unchanged (frame)') % o.name
        if a is b:
            if changed:
                e.obl('func', TRUE, w)
            continue
        e.obl('func', forall(o.len, lambda k: eq(app(a, k), app(b, k))), w)
        if o in st.init and 'uninit' in e.cats:
            bi = spec.init.get(o)
            ai = st.init[o]
            if ai is not bi:
                e.obl('uninit', forall(o.len, lambda k: implies(eq(app(bi, k), I(1)) if bi is not None else TRUE, eq(app(ai, k), I(1)))),
                      '%s is initialised as specified' % o.name)
    for c in s0.cells:
        if c not in st.cells:
            continue
        a, b = st.cells[c], spec.cells.get(c, UNDEF)
        nm = '%s%s' % (c[0].name, ''.join('.' + str(x) for x in c[1]))
        changed = b is not s0.cells[c]
        if a is b or b is UNDEF:
            continue
        e.obl('func', eq_val(a, b), ('%s holds the specified value' if changed else '%s is left unchanged (frame)') % nm)
    # heap: every allocation made inside is released, unless the spec created it
    for o, l in st.live.items():
        if o in s0.live:
            l2 = spec.live.get(o, FALSE)
            if l is not l2:
                e.obl('alloc', iff(l, l2), '%s is released exactly as specified' % o.name)
        elif not getattr(o, 'escapes', False):
            e.obl('alloc', not_(l), '%s allocated here is released on every path' % o.name)


class Result:
    def __init__(self, name):
        self.name, self.obls, self.error, self.notes, self.used, self.time = name, [], None, [], [], 0.0
        self.z3 = 0.0
        self.scen = 0


def verify(c, units, cats, budget=25, total=240, contracts=None):
    """verify one contract against the current source; returns Result"""
    res = Result(c.key)
    T.UNFOLD.clear()
    if getattr(c, 'unfold', None):
        import s_tv
        s_tv.unfold(*[u for u in c.unfold if u in s_tv.DEFS])
        for u in c.unfold:
            if u in GDEFS:
                T.UNFOLD[u] = GDEFS[u]
    if isinstance(c, Lemma):
        t0 = time.time()
        z0 = P.STATS['z3_time']
        e = X.Engine(units, CONTRACTS, L.LIB, cats, budget)
        e.fname = c.name
        try:
            c.body(e)
        except Exception as ex:
            res.error = 'internal: %r' % (ex,)
        res.obls, res.time, res.z3, res.scen = e.obls, time.time() - t0, P.STATS['z3_time'] - z0, 1
        return res
    t0 = time.time()
    z0 = P.STATS['z3_time']
    for sc in c.scenarios:
        e = X.Engine(units, contracts if contracts is not None else CONTRACTS, L.LIB, cats, budget)
        e.fname = c.name
        e.deadline = t0 + total
        e.no_contract.add(c.name)
        loops.INVERSE.clear()
        try:
            f = None
            for u in units:
                if u.path.endswith('/' + c.file) and c.name in u.fns:
                    f = (u, u.fns[c.name])
            if f is None:
                raise Unsupported('function %s not found in %s' % (c.name, c.file))
            args = sc(e)
            s0 = e.st.copy()
            if P.sat(e.hyps(), 1) == 'unsat':
                res.obls.append(dict(fn=c.name, cat='vacuity', what='precondition satisfiable', line=None, status='invalid', reason='', model=None, time=0, taint=['vacuous'], term=None))
            if hasattr(c, 'before'):
                c.before(e, args)
            outs = e.run_body(f[0], f[1], args)
            if not outs:
                res.obls.append(dict(fn=c.name, cat='vacuity', what='the function returns', line=None, status='invalid', reason='', model=None, time=0, taint=['no path returns'], term=None))
            if outs and all(P.sat(oc.st.hyps(), 1) == 'unsat' for oc in outs):
                res.obls.append(dict(fn=c.name, cat='vacuity', what='some path through the function is feasible', line=None, status='invalid', reason='', model=None, time=0, taint=['vacuous'], term=None))
            c.check(e, s0, args, outs)
            if e.mute:
                raise Unsupported('internal: obligations left muted')
            res.scen += 1
        except Unsupported as ex:
            res.error = '%s (line %s)' % (ex, e._curline)
        except RecursionError as ex:
            res.error = 'recursion: %s' % ex
        except Exception as ex:
            res.error = 'internal: %r at %s' % (ex, ' / '.join(x.strip() for x in traceback.format_exc().splitlines()[-7:]))
        res.obls += e.obls
        res.notes += e.notes
        res.used = sorted(set(res.used) | e.used)
    res.time = time.time() - t0
    res.z3 = P.STATS['z3_time'] - z0
    return res
