"""Symbolic executor over the clang AST: generates and discharges the obligations of one function
against contracts (callees with a contract are never entered).  See DESIGN.md."""
import os, re, time, sys
from fractions import Fraction
import terms as T
from terms import *
import prover as P
from cfront import ty, clean_type, pragma_text

sys.setrecursionlimit(100000)


class Unsupported(Exception):
    pass


class MergeFail(Unsupported):
    pass


class D:
    __slots__ = ('t', 'nan')

    def __init__(self, t, nan=FALSE):
        self.t, self.nan = to_real(t), nan

    def __repr__(self):
        return 'D(%s%s)' % (self.t, '' if self.nan is FALSE else ' nan:%s' % self.nan)

    def __eq__(self, o):
        return isinstance(o, D) and self.t is o.t and self.nan is o.nan

    def __hash__(self):
        return hash((self.t, self.nan))


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


class Maybe:
    """value defined only when cond holds"""
    def __init__(self, cond, val):
        self.cond, self.val = cond, val

    def __eq__(self, o):
        return isinstance(o, Maybe) and self.cond is o.cond and self.val == o.val

    def __hash__(self):
        return hash(self.cond)

    def __repr__(self):
        return 'Maybe(%s,%s)' % (self.cond, self.val)


class Obj:
    _n = 0

    def __init__(self, name, kind, elem=None, length=None, heap=False, aligned=False, rtype=None, owner=None):
        Obj._n += 1
        self.id = Obj._n
        self.name, self.kind, self.elem, self.len, self.heap, self.aligned = name, kind, elem, length, heap, aligned
        self.rtype = rtype
        self.bytes = None
        self.owner = owner
        self.const = False
        self.local = False
        self.hint = None

    def __repr__(self):
        return '%s#%d' % (self.name, self.id)


class Ptr:
    __slots__ = ('obj', 'off', 'null', 'path')

    def __init__(self, obj, off=None, null=FALSE, path=()):
        self.obj, self.off, self.null, self.path = obj, (I(0) if off is None else off), null, path

    def __repr__(self):
        return 'Ptr(%s+%s%s%s)' % (self.obj, self.off, self.path or '', '' if self.null is FALSE else ' null:%s' % self.null)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj is o.obj and self.off is o.off and self.null is o.null and self.path == o.path

    def __hash__(self):
        return hash((id(self.obj), self.off, self.null, self.path))


NULL = Ptr(None, None, TRUE)


class FnV:
    __slots__ = ('key', 'null')

    def __init__(self, key, null=FALSE):
        self.key, self.null = key, null

    def __eq__(self, o):
        return isinstance(o, FnV) and self.key == o.key and self.null is o.null

    def __hash__(self):
        return hash((self.key, self.null))

    def __repr__(self):
        return 'Fn(%s)' % (self.key,)


class SV:
    """struct value: {path: value}"""
    def __init__(self, f):
        self.f = dict(f)

    def __repr__(self):
        return 'SV(%s)' % self.f

    def __eq__(self, o):
        return isinstance(o, SV) and self.f == o.f

    def __hash__(self):
        return 0


class State:
    __slots__ = ('cells', 'arrs', 'init', 'live', 'pc')

    def __init__(self):
        self.cells, self.arrs, self.init, self.live, self.pc = {}, {}, {}, {}, ()

    def copy(self):
        s = State()
        s.cells, s.arrs, s.init, s.live, s.pc = dict(self.cells), dict(self.arrs), dict(self.init), dict(self.live), self.pc
        return s

    def hyps(self):
        return [t for _, t in self.pc]


class Outcome:
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


def tkind(t):
    t = clean_type(t)
    if t.endswith('*') or '(*' in t or re.search(r'\*\s*$', t):
        return 'ptr'
    if re.search(r'\[\d*\]$', t):
        return 'array'
    if t in ('double', 'float', 'long double'):
        return 'real'
    if t in ('int', 'unsigned int', 'unsigned', 'long', 'unsigned long', 'char', 'size_t', 'short', 'unsigned char',
             'long long', 'unsigned long long', 'bool', '_Bool', 'signed char') or t.startswith('enum '):
        return 'int'
    if t == 'void':
        return 'void'
    if '(' in t:
        return 'fn'
    return 'struct'


INTR = {'int': (-2**31, 2**31 - 1), 'long': (-2**63, 2**63 - 1), 'unsigned int': (0, 2**32 - 1), 'unsigned long': (0, 2**64 - 1)}
SIZEOF = {'double': 8, 'int': 4, 'char': 1, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'float': 4}


def isnull(p):
    """null test of a pointer; a pointer into a linked list is null past its last node"""
    if isinstance(p, Ptr) and p.obj is not None and p.obj.kind == 'list':
        return or_(p.null, eq(p.off, p.obj.len))
    return p.null


def as_bool(v):
    if isinstance(v, Term):
        return v if v.sort == 'B' else ne(v, I(0))
    if isinstance(v, Ptr):
        return not_(isnull(v))
    if isinstance(v, FnV):
        return not_(v.null)
    if isinstance(v, D):
        return or_(v.nan, ne(v.t, R(0)))
    raise Unsupported('truth value of %r' % (v,))


def as_int(v):
    if isinstance(v, Term):
        return ite(v, I(1), I(0)) if v.sort == 'B' else v
    raise Unsupported('int value of %r' % (v,))


def as_d(v):
    if isinstance(v, D):
        return v
    if isinstance(v, Term):
        return D(to_real(as_int(v)))
    raise Unsupported('double value of %r' % (v,))


def real_to_int(t):
    """exact conversion when t is integer valued by construction, else None"""
    r = I(0)
    for m, c in t.args:
        if c.denominator != 1:
            return None
        cur = I(c)
        for a, e in m:
            if a.sort == 'I':
                x = of_atom(a)
            elif a.kind == 'ite':
                u, v = real_to_int(a.args[1]), real_to_int(a.args[2])
                if u is None or v is None:
                    return None
                x = ite(a.args[0], u, v)
            else:
                return None
            for _ in range(e):
                cur = cur * x
        r = r + cur
    return r


def merge_val(c, a, b):
    """ite(c,a,b) on values"""
    if a is b or (type(a) is type(b) and a == b):
        return a
    if a is UNDEF and b is UNDEF:
        return UNDEF
    if a is UNDEF:
        return Maybe(and_(not_(c), b.cond), b.val) if isinstance(b, Maybe) else Maybe(not_(c), b)
    if b is UNDEF:
        return Maybe(and_(c, a.cond), a.val) if isinstance(a, Maybe) else Maybe(c, a)
    if isinstance(a, Maybe) or isinstance(b, Maybe):
        ca = a.cond if isinstance(a, Maybe) else TRUE
        cb = b.cond if isinstance(b, Maybe) else TRUE
        va = a.val if isinstance(a, Maybe) else a
        vb = b.val if isinstance(b, Maybe) else b
        return Maybe(ite(c, ca, cb), merge_val(c, va, vb))
    if isinstance(a, D) or isinstance(b, D):
        a, b = as_d(a), as_d(b)
        return D(ite(c, a.t, b.t), ite(c, a.nan, b.nan))
    if isinstance(a, Term) and isinstance(b, Term):
        if a.sort == 'B' and b.sort == 'B':
            return ite(c, a, b)
        if a.sort.startswith('V') or b.sort.startswith('V'):
            return vlam(lambda k: ite(c, app(a, k), app(b, k)))
        return ite(c, as_int(a), as_int(b))
    if isinstance(a, FnV) or isinstance(b, FnV):
        if isinstance(a, Ptr) and a.obj is None:
            a = FnV(b.key, TRUE)
        if isinstance(b, Ptr) and b.obj is None:
            b = FnV(a.key, TRUE)
        if isinstance(a, FnV) and isinstance(b, FnV):
            if a.key is None:
                a = FnV(b.key, TRUE)
            if b.key is None:
                b = FnV(a.key, TRUE)
            if a.key == b.key:
                return FnV(a.key, ite(c, a.null, b.null))
        raise MergeFail('function pointers %r %r' % (a, b))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.null is TRUE:
            return Ptr(b.obj, b.off, ite(c, TRUE, b.null), b.path)
        if b.null is TRUE:
            return Ptr(a.obj, a.off, ite(c, a.null, TRUE), a.path)
        if a.obj is b.obj and a.path == b.path:
            return Ptr(a.obj, ite(c, a.off, b.off), ite(c, a.null, b.null), a.path)
        raise MergeFail('pointers %r %r' % (a, b))
    if isinstance(a, SV) and isinstance(b, SV):
        return SV({p: merge_val(c, a.f.get(p, UNDEF), b.f.get(p, UNDEF)) for p in set(a.f) | set(b.f)})
    raise MergeFail('%r / %r' % (a, b))


def split_pc(base, st):
    n = 0
    while n < len(base) and n < len(st.pc) and base[n] == st.pc[n]:
        n += 1
    return st.pc[n:]


def merge_states(base_pc, states, vals=None):
    """merge states with mutually exclusive path conditions; base_pc = common prefix"""
    if len(states) == 1:
        return states[0], (vals[0] if vals else None)
    n = min(len(s.pc) for s in states)
    i = 0
    while i < n and all(s.pc[i] == states[0].pc[i] for s in states):
        i += 1
    common = states[0].pc[:i]
    conds, factss = [], []
    for s in states:
        conds.append(and_(*[t for g, t in s.pc[i:] if g == 'c']))
        factss.append([t for g, t in s.pc[i:] if g != 'c'])
    # simplify conditions pairwise: c and not c
    out = State()
    pc = list(common)
    disj = or_(*conds)
    if disj is not TRUE:
        pc.append(('c', disj))
    for k, (c, fs) in enumerate(zip(conds, factss)):
        if c is TRUE and fs:          # chosen exactly when no earlier one is
            c = and_(*[not_(x) for x in conds[:k]])
        for f in fs:
            if all(f in [t for _, t in s.pc[i:]] for s in states):
                x = ('f', f)
            else:
                x = ('f', implies(c, f) if f.kind != 'forallr' else or_(not_(c), f))
            if x not in pc:
                pc.append(x)
    out.pc = tuple(pc)

    def fold(get, dflt):
        cur = get(states[-1])
        for s, c in zip(states[-2::-1], conds[-2::-1]):
            v = get(s)
            if v is cur or (type(v) is type(cur) and v == cur):
                continue
            cur = merge_val(c, v, cur)
        return cur
    keys = {}
    for s in states:
        for k in s.cells:
            keys[k] = 1
    for k in keys:
        absent = getattr(k[0], 'absent', UNDEF)
        out.cells[k] = fold(lambda s: s.cells.get(k, absent), None)
    for attr in ('arrs', 'init'):
        ks = {}
        for s in states:
            for k in getattr(s, attr):
                ks[k] = 1
        for k in ks:
            have = [getattr(s, attr).get(k) for s in states]
            base = next(h for h in have if h is not None)
            full = vlam(lambda j: I(1), 'I')      # in 'init', no entry for an existing array: all of it is initialised
            getattr(out, attr)[k] = fold(lambda s: getattr(s, attr).get(k, full if attr == 'init' and k in s.arrs else base), None)
    ks = {}
    for s in states:
        for k in s.live:
            ks[k] = 1
    for k in ks:
        out.live[k] = fold(lambda s: s.live.get(k, FALSE), None)
    val = None
    if vals:
        cur = vals[-1]
        for v, c in zip(vals[-2::-1], conds[-2::-1]):
            if v is None and cur is None:
                continue
            cur = merge_val(c, v, cur)
        val = cur
    return out, val


ALLCATS = ('func', 'safety', 'live', 'alloc', 'race', 'pre', 'mpre', 'align', 'uninit', 'overflow')


class Frame:
    def __init__(self, fn, unit):
        self.fn, self.unit, self.env, self.objs = fn, unit, {}, []


class Engine:
    def __init__(self, units, contracts, lib, cats=None, budget=25):
        self.units = units            # list of Unit
        self.contracts = contracts    # name -> contract (object with apply)
        self.lib = lib                # name -> python function(eng, args, node)
        self.cats = set(cats or ALLCATS)
        self.st = State()
        self.frames = []
        self.obls = []
        self.mute = 0
        self.taint = []
        self.globals = {}
        self.fname = '?'
        self.budget = budget
        self.inline_stack = []
        self.no_contract = set()      # names to be inlined even if they have a contract
        self.reads = None             # read and write logs for race checking
        self.writes_log = []
        self.used = set()             # contracts / library functions relied upon
        self.loops_closed = 0
        self.notes = []
        self.ghost_specs = []         # list of ghost-simulation loop specs
        self.invs = []                # functions (loop, s0, mod_c, mod_a) -> [(name, state -> formula)]: candidate loop invariants
        self.inv_cache = {}
        self.mod_cache = {}
        self.modphase = 0
        self.lognan = False           # log of a non-positive number and sums containing one are flagged as not finite
        self.deadline = None

    # ------------------------------------------------------------------ logic helpers
    def hyps(self):
        return self.st.hyps()

    def assume(self, t, tag='f'):
        if t is TRUE:
            return
        if t.kind == 'and':
            for x in t.args:
                self.assume(x, tag)
            return
        if (tag, t) not in self.st.pc:
            self.st.pc = self.st.pc + ((tag, t),)

    def decide(self, c):
        return P.decide(P.flat(self.hyps()), c)

    def line(self, node):
        return node.get('_l') if isinstance(node, dict) else None

    def obl(self, cat, cond, what, node=None, level=2):
        """emit and discharge an obligation; afterwards it is assumed"""
        if self.mute or cat not in self.cats:
            if cond is not TRUE and cond.kind != 'forallr':
                pass
            return
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of this function exhausted')
        t0 = time.time()
        r = P.prove(self.hyps(), cond, self.budget, level)
        if not r:
            # a second look: maybe the path is infeasible
            if P.sat(self.hyps(), 1) == 'unsat':
                r = P.VALID
        if not r and os.environ.get('VC_DBG') and os.environ['VC_DBG'] in what:
            for h in self.hyps():
                print('   HYP', show(h)[:int(os.environ.get('VC_LEN', 300))])
            print('   GOAL', what, show(cond)[:2000])
        self.obls.append(dict(fn=self.fname, cat=cat, what=what, line=self.line(node) if node is not None else self.cur_line(),
                              status=r.status, reason=r.reason, model=r.model, time=time.time() - t0,
                              taint=list(self.taint) + ([] if r else self.hv_taint(cond)), term=None if r else show(cond)[:1500]))
        if not r and cond.kind != 'forallr' and cond is not FALSE:
            self.assume(cond)

    def hv_taint(self, cond):
        from loops import is_hv
        out = []
        for t in [cond] + [t for g, t in self.st.pc if g == 'c']:
            if is_hv(t):
                out.append('depends on a loop value left arbitrary')
                return out
        vs = {x for x in subterms_set(cond) if x.kind in ('var', 'vatom') and x.sort != 'I'}
        for g, t in self.st.pc:
            if is_hv(t) and not vs.isdisjoint(subterms_set(t)):
                out.append('depends on a loop value left arbitrary')
                break
        return out

    _curline = None

    def cur_line(self):
        return self._curline

    def simp(self, t):
        """resolve ite conditions decided by the path condition"""
        if not isinstance(t, Term):
            return t
        h = P.flat(self.hyps())
        for _ in range(40):
            done = True
            for it in P.find_ites(t):
                c = it.args[0]
                d = P.decide(h, c)
                if d is not None:
                    t = P.subst_ites(t, c, d)
                    done = False
                    break
            if done:
                return t
        return t

    def fresh_int(self, name, lo=None, hi=None):
        v = fresh(name, 'I')
        if lo is not None:
            self.assume(ge(v, lift(lo, 'I')))
        if hi is not None:
            self.assume(le(v, lift(hi, 'I')))
        return v

    # ------------------------------------------------------------------ memory
    def new_arr(self, name, length, elem='R', heap=False, aligned=False, content=None, init=True, local=False):
        o = Obj(name, 'arr', elem, length, heap, aligned)
        o.local = local
        self.st.arrs[o] = content if content is not None else vatom('%s_%d' % (name, o.id), 'R' if elem == 'R' else 'I')
        if not init:
            self.st.init[o] = vlam(lambda k: I(0), 'I')
        return o

    def read_elem(self, o, k, node=None):
        v = app(self.st.arrs[o], k)
        v = self.simp(v)
        if o in self.st.init:
            iv = self.simp(app(self.st.init[o], k))
            if iv is not I(1):
                self.obl('uninit', eq(iv, I(1)), 'element of %s is initialised before use' % o.name, node)
        if self.reads is not None and not self.mute:
            self.reads.append((o, k, self.st.pc))
        return D(v) if o.elem == 'R' else v

    def write_elem(self, o, k, val):
        old = self.st.arrs[o]
        if self.reads is not None and not self.mute:
            self.writes_log.append((o, k, self.st.pc))
        if o.elem == 'R':
            v = as_d(val).t
        else:
            v = as_int(val)
        if o.hint is not None:
            # specified in-place recurrence, in index order: the store goes to the next element (ghost frontier F) and
            # puts the specified value of that element
            F = self.st.cells[(o, ('$F',))]
            if not self.mute:
                guard, fact = o.hint[2](k)
                if self.decide(guard) is True:
                    self.assume(eq0(self.simp(fact)))
            for c, w in ((eq(k, F), 'elements of %s are updated in order, each once'),
                         (eq(v, app(o.hint[0], k)), 'value stored in %s is the one the recurrence specifies')):
                n0 = len(self.obls)
                self.obl('func', c, w % o.name)
                if len(self.obls) > n0 and self.obls[-1]['status'] != 'valid':
                    self.obls[-1]['taint'].append('the update may be organised differently')
            self.st.cells[(o, ('$F',))] = F + I(1)
            self.st.arrs[o] = self.frontier(o, F + I(1))
            return
        kk = fresh('$k', 'I')
        self.st.arrs[o] = vlam_body(ite(eq(kk, k), v, app(old, kk)), kk)
        if o in self.st.init:
            oi = self.st.init[o]
            self.st.init[o] = vlam(lambda j: ite(eq(j, k), I(1), app(oi, j)), 'I')

    def frontier(self, o, F):
        g, b = o.hint[:2]
        return vlam(lambda k: ite(lt(k, F), app(g, k), app(b, k)))

    def check_access(self, p, n, node, what='access'):
        """obligations for accessing n elements at pointer p (n Term)"""
        if self.mute:
            return
        o = p.obj
        if p.null is not FALSE:
            self.obl('live', or_(not_(p.null), le(n, I(0))), 'pointer is not null (%s)' % what, node)
        if o is None:
            return
        if o in self.st.live:
            l = self.st.live[o]
            if l is not TRUE:
                self.obl('live', or_(l, p.null, le(n, I(0))), '%s is allocated and not released (%s)' % (o.name, what), node)
        if o.kind == 'arr' and o.len is not None:
            c = and_(ge(p.off, I(0)), le(p.off + n, o.len))
            self.obl('safety', or_(c, le(n, I(0)), p.null), '%s within bounds of %s' % (what, o.name), node)

    def view(self, p, n, stride=1):
        """relative vector of the n elements at p"""
        if p.obj is None or p.obj.kind != 'arr':
            if p.obj is None and P.decide(P.flat(self.hyps()), le(n, I(0))):
                return vconst(0)
            raise Unsupported('view of %r' % (p,))
        st = lift(stride, 'I')
        v = self.st.arrs[p.obj]
        if self.reads is not None and not self.mute:
            self.reads.append((p.obj, ('view', p.off, n, st), self.st.pc))
        if is_const(p.off) == 0 and is_const(st) == 1 and v.kind != 'vlam':
            return v
        k = fresh('vk', 'I')
        save = self.st
        s2 = save.copy()
        s2.pc = s2.pc + (('f', ge(k, I(0))), ('f', lt(k, n)))
        self.st = s2
        body = self.simp(app(v, p.off + st * k))
        self.st = save
        return vlam_body(body, k)

    def check_init(self, p, n, node=None, stride=1):
        if self.mute or p.obj not in self.st.init or 'uninit' not in self.cats:
            return
        iv = self.st.init[p.obj]
        self.obl('uninit', forall(n, lambda k: eq(app(iv, p.off + lift(stride, 'I') * k), I(1))),
                 'elements of %s are initialised before use' % p.obj.name, node)

    def rview(self, p, n, node=None, what='read', stride=1):
        """checked read of a range"""
        if is_const(lift(stride, 'I')) == 1:
            self.check_access(p, n, node, what)
        else:
            self.check_access(p, lift(stride, 'I') * (n - I(1)) + I(1), node, what)
        self.check_init(p, n, node, stride)
        return self.view(p, n, stride)

    def wview(self, p, n, vec, node=None, what='write', stride=1):
        st = lift(stride, 'I')
        o = p.obj
        if is_const(st) == 1:
            self.check_access(p, n, node, what)
        else:
            self.check_access(p, st * (n - I(1)) + I(1), node, what)
        if o is None or o.kind != 'arr':
            if o is None and P.decide(P.flat(self.hyps()), le(n, I(0))):
                return
            raise Unsupported('write to %r' % (p,))
        old = self.st.arrs[o]
        lo = p.off
        if self.reads is not None and not self.mute:
            self.writes_log.append((o, ('view', p.off, n, st), self.st.pc))
        if is_const(st) == 1:
            whole = is_const(lo) == 0 and o.len is not None and (o.len is n or self.decide(ge(n, o.len)))
            if whole:
                self.st.arrs[o] = vec
            else:
                hi = lo + n
                kk = fresh('$k', 'I')
                self.st.arrs[o] = vlam_body(ite(and_(ge(kk, lo), lt(kk, hi)), app(vec, kk - lo), app(old, kk)), kk)
            if o in self.st.init:
                if whole:
                    del self.st.init[o]
                else:
                    oi = self.st.init[o]
                    self.st.init[o] = vlam(lambda j: ite(and_(ge(j, lo), lt(j, hi)), I(1), app(oi, j)), 'I')
        else:
            kk = fresh('$k', 'I')
            q = ediv(kk - lo, st)
            c = and_(ge(kk, lo), lt(q, n), eq(q * st, kk - lo))
            self.st.arrs[o] = vlam_body(ite(c, app(vec, q), app(old, kk)), kk)
            if o in self.st.init:
                oi = self.st.init[o]
                self.st.init[o] = vlam(lambda j: ite(subst(c, {atom_of(kk): j}), I(1), app(oi, j)), 'I')

    # struct helpers
    def record_fields(self, t):
        t = clean_type(t)
        for u in self.units:
            if t in u.records:
                return u.records[t]
            td = u.typedefs.get(t)
            if td and clean_type(td) in u.records:
                return u.records[clean_type(td)]
        raise Unsupported('unknown record ' + t)

    def leaf_paths(self, t, pre=()):
        k = tkind(t)
        if k == 'struct':
            if clean_type(t).split('::')[-1] == 'Vec4d':
                for i in range(4):
                    yield pre + ('l%d' % i,), 'double'
                return
            for f, ft in self.record_fields(t):
                yield from self.leaf_paths(ft, pre + (f,))
        elif k == 'array':
            yield pre, t
        else:
            yield pre, t

    def sizeof(self, t):
        t = clean_type(t)
        if t in SIZEOF:
            return SIZEOF[t]
        k = tkind(t)
        if k == 'ptr':
            return 8
        if k == 'int':
            return 4
        if k == 'struct':
            off, al = 0, 1
            for f, ft in self.record_fields(t):
                s = self.sizeof(ft)
                a = min(s, 8)
                if tkind(ft) == 'struct':
                    a = 8
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al
        m = re.match(r'(.*)\[(\d+)\]$', t)
        if m:
            return self.sizeof(m.group(1)) * int(m.group(2))
        raise Unsupported('sizeof ' + t)

    # lvalues
    def lv_read(self, lv, node=None):
        kind = lv[0]
        if kind == 'elem':
            _, o, k, p = lv
            self.check_access(p, I(1), node, 'read')
            return self.read_elem(o, k, node)
        if kind == 'node':
            _, o, k, f = lv
            if f == 'next':
                return Ptr(o, k + I(1))
            if f in o.fields:
                v = app(o.fields[f], k)
                return D(v) if v.sort == 'R' else v
            raise Unsupported('member %s of a list node' % f)
        _, o, path = lv
        cells = self.st.cells
        if (o, path) in cells:
            return self.use(cells[(o, path)], o, node)
        if path == () and getattr(o, 'gdefault', None) is not None:
            return o.gdefault
        f = {}
        L = len(path)
        for (oo, pp), v in cells.items():
            if oo is o and pp[:L] == path:
                f[pp[L:]] = v
        if f:
            return SV(f)
        if o.kind == 'arr':
            return Ptr(o)
        if o.rtype:
            if tkind(o.rtype) in ('int', 'real', 'ptr') and not path:
                return self.use(UNDEF, o, node)
            return UNDEF
        raise Unsupported('read of unknown cell %r%r' % (o, path))

    def use(self, v, o, node):
        if self.reads is not None and (v is UNDEF or isinstance(v, Maybe)):
            self.obl('race', FALSE if v is UNDEF else v.cond, 'private copy of %s is set before its use in the same iteration' % o.name, node)
        if v is UNDEF:
            self.obl('uninit', FALSE, '%s is initialised before use' % o.name, node)
            if self.mute:
                return UNDEF
            raise Unsupported('use of uninitialised %s' % o.name)
        if isinstance(v, Maybe):
            self.obl('uninit', v.cond, '%s is initialised before use' % o.name, node)
            return v.val
        return v

    def lv_write(self, lv, val, node=None):
        if lv[0] == 'elem':
            _, o, k, p = lv
            self.check_access(p, I(1), node, 'write')
            self.write_elem(o, k, val)
            return
        if lv[0] == 'node':
            raise Unsupported('write to a list node')
        _, o, path = lv
        if isinstance(val, SV):
            for pp in [pp for (oo, pp) in self.st.cells if oo is o and pp[:len(path)] == path]:
                del self.st.cells[(o, pp)]
            for pp, v in val.f.items():
                self.st.cells[(o, path + pp)] = v
            return
        self.st.cells[(o, path)] = val

    def deref(self, p, node=None):
        """pointer value -> lvalue"""
        if not isinstance(p, Ptr):
            raise Unsupported('dereference of %r' % (p,))
        if p.obj is None:
            self.obl('live', FALSE, 'null pointer is not dereferenced', node)
            raise Unsupported('null dereference')
        o = p.obj
        if o.kind == 'raw':
            raise Unsupported('dereference of untyped memory')
        if o.kind == 'arr':
            return ('elem', o, p.off, p)
        if o.kind == 'list':
            self.obl('live', and_(not_(p.null), ge(p.off, I(0)), lt(p.off, o.len)), 'list node pointer is not null', node)
            return ('node', o, p.off, None)
        if p.null is not FALSE:
            self.obl('live', not_(p.null), 'pointer is not null', node)
        if o in self.st.live and self.st.live[o] is not TRUE and not self.mute:
            self.obl('live', or_(self.st.live[o], p.null), '%s is allocated and not released' % o.name, node)
        if o.kind == 'ptrs':
            off = self.simp(p.off)
            c = is_const(off)
            if c is None:
                raise Unsupported('symbolic index into pointer array')
            if not self.mute:
                self.obl('safety', and_(ge(off, I(0)), lt(off, o.len)), 'index within bounds of %s' % o.name, node)
            return ('cell', o, p.path + (int(c),))
        if is_const(p.off) != 0:
            raise Unsupported('offset into scalar object')
        return ('cell', o, p.path)

    # ------------------------------------------------------------------ functions
    def find_fn(self, name, unit=None):
        if unit is not None and name in unit.fns:
            return unit, unit.fns[name]
        for u in self.units:
            if name in u.fns and u.fns[name].get('storageClass') != 'static':
                return u, u.fns[name]
        return None

    def global_obj(self, declid, name, unit, node=None):
        ext = node is not None and node.get('storageClass') == 'extern'
        key = (unit.path, name)
        if key in self.globals:
            return self.globals[key]
        for k, o in self.globals.items():
            if k[1] == name and k[0] is None:
                return o
        t = ty(node) if node else 'int'
        o = Obj(name, 'cells', rtype=t)
        self.globals[key] = o
        k = tkind(t)
        if k == 'struct':
            for p, ft in self.leaf_paths(t):
                self.st.cells[(o, p)] = UNDEF
        elif name in ('stderr', 'stdout', 'stdin'):
            o.gdefault = Ptr(Obj(name, 'cells'))
        elif name == 'l1c_printf':
            o.gdefault = FnV('printf')      # the replaceable message printer
        elif 'const' in node.get('type', {}).get('qualType', '').split('*')[-1] and k in ('int', 'real') and node.get('inner'):
            init = [c for c in node['inner'] if c.get('kind') and not c['kind'].endswith('Attr') and 'Comment' not in c['kind']]
            self.frames.append(Frame(None, unit))
            try:
                o.gdefault = self.coerce(self.ev(init[0]), t)
            finally:
                self.frames.pop()
        else:
            self.st.cells[(o, ())] = UNDEF
        return o

    def lookup(self, ref, node):
        fr = self.frames[-1]
        i = ref['id']
        if i in fr.env:
            return fr.env[i]
        for f in reversed(self.frames):
            if i in f.env and f.unit is fr.unit:
                return f.env[i]
        g = fr.unit.globals.get(i)
        if g is None:
            g = ref
        return self.global_obj(i, ref['name'], fr.unit, g)

    def call_fn(self, key, args, node, unit=None):
        """key: function name or python-callable semantic operator"""
        if callable(key):
            return key(self, args, node)
        name = key if isinstance(key, str) else key[1]
        if not isinstance(key, str):
            unit = key[0]
        ck = name
        c = None
        if unit is not None and name in unit.fns and unit.fns[name].get('storageClass') == 'static':
            import os
            c = self.contracts.get('%s:%s' % (os.path.basename(unit.path), name)) or self.contracts.get(name)
        else:
            c = self.contracts.get(name)
        if c is not None and name not in self.no_contract:
            self.used.add(name)
            return c.apply(self, args, node)
        if name in self.lib and (self.find_fn(name, unit) is None or (unit is not None and getattr(unit, 'cxx', False))):
            self.used.add(name)
            return self.lib[name](self, args, node)
        f = self.find_fn(name, unit)
        if f is None:
            raise Unsupported('call to unknown function ' + name)
        if name in self.inline_stack or len(self.inline_stack) > 12:
            raise Unsupported('recursive call ' + name)
        return self.inline(f[0], f[1], args, node)

    def inline(self, unit, fn, args, node=None):
        outs = self.run_body(unit, fn, args)
        if not outs:
            # no return reachable
            self.assume(FALSE, 'c')
            return None
        sts = [o.st for o in outs]
        vals = [o.val for o in outs]
        st, val = merge_states(None, sts, vals if any(v is not None for v in vals) else None)
        self.st = st
        return val

    def run_body(self, unit, fn, args):
        """execute function body from self.st; returns list of 'return' outcomes, frame locals dropped"""
        fr = Frame(fn, unit)
        self.frames.append(fr)
        self.inline_stack.append(fn['name'])
        try:
            for pn, a in zip(fn['_params'], args):
                o = Obj(pn.get('name', 'arg'), 'cells', rtype=ty(pn))
                o.local = True
                fr.env[pn['id']] = o
                fr.objs.append(o)
                a = self.coerce(a, ty(pn))
                self.lv_write(('cell', o, ()), a)
            outs = self.stmt(fn['_body'], [self.st])
            res = []
            for oc in outs:
                if oc.kind in ('normal', 'return'):
                    st = oc.st
                    st.cells = {k: v for k, v in st.cells.items() if k[0] not in fr.objs}
                    for o in fr.objs:
                        st.arrs.pop(o, None)
                        st.init.pop(o, None)
                    res.append(Outcome('return', st, oc.val))
                else:
                    raise Unsupported('outcome %s %s at function level' % (oc.kind, oc.val))
            return res
        finally:
            self.inline_stack.pop()
            self.frames.pop()

    def coerce(self, v, t):
        k = tkind(t)
        if k == 'int' and isinstance(v, Term) and v.sort == 'B':
            return as_int(v)
        if k == 'real' and isinstance(v, Term):
            return as_d(v)
        if k == 'int' and isinstance(v, D):
            r = real_to_int(v.t)
            return r if r is not None else uf('trunc', 'I', v.t)
        if k == 'ptr' and isinstance(v, Term) and is_const(v) == 0:
            return NULL
        return v

    # ------------------------------------------------------------------ statements
    def stmts(self, nodes, outs):
        """outs: list of states; returns outcomes"""
        cur = list(outs)
        done = []
        pend = []           # pending forward gotos
        i = 0
        for n in nodes:
            if n.get('kind') == 'LabelStmt':
                lid = n.get('declId') or n.get('name')
                take = [o for o in pend + done if o.kind == 'goto' and o.val == lid]
                pend = [o for o in pend if o not in take]
                done = [o for o in done if o not in take]
                cur = cur + [o.st for o in take]
            nxt = []
            if not cur:
                # still must look for labels nested deeper
                continue
            res = self.stmt(n, cur)
            for o in res:
                if o.kind == 'normal':
                    nxt.append(o.st)
                else:
                    done.append(o)
            cur = nxt
        return [Outcome('normal', s) for s in cur] + done

    def stmt(self, n, states):
        res = []
        if len(states) > 24:
            raise Unsupported('too many paths')
        for s in states:
            self.st = s
            res += self.stmt1(n)
        return res

    def normal(self):
        return [Outcome('normal', self.st)]

    def stmt1(self, n):
        k = n.get('kind')
        self._curline = n.get('_l', self._curline)
        if not k or k in ('NullStmt',):
            return self.normal()
        if k == 'CompoundStmt':
            fr = self.frames[-1]
            n0 = len(fr.objs)
            outs = self.stmts(n.get('inner', ()), [self.st])
            dead = set(fr.objs[n0:])
            if dead:
                # locals whose address may escape are dropped as well (dangling use is then unsupported)
                for o in outs:
                    if o.kind != 'goto':
                        o.st.cells = {c: v for c, v in o.st.cells.items() if c[0] not in dead}
                del fr.objs[n0:]
                if any(o.kind == 'goto' for o in outs):
                    fr.objs.extend(dead)
            return outs
        if k == 'DeclStmt':
            for d in n.get('inner', ()):
                if d.get('kind') == 'VarDecl':
                    self.decl(d)
            return self.normal()
        if k == 'ReturnStmt':
            v = None
            if n.get('inner'):
                v = self.ev(n['inner'][0])
                v = self.coerce(v, clean_type(self.ret_type()))
            return [Outcome('return', self.st, v)]
        if k == 'IfStmt':
            inner = [c for c in n['inner']]
            c = as_bool(self.ev(inner[0]))
            c = self.simp_bool(c)
            th, el = inner[1], (inner[2] if len(inner) > 2 else None)
            return self.fork(c, lambda: self.stmt1(th), (lambda: self.stmt1(el)) if el else self.normal)
        if k in ('ForStmt', 'WhileStmt', 'DoStmt'):
            import loops
            return loops.exec_loop(self, n)
        if k.startswith('OMP'):
            import loops
            return loops.exec_omp(self, n)
        if k == 'BreakStmt':
            return [Outcome('break', self.st)]
        if k == 'ContinueStmt':
            return [Outcome('continue', self.st)]
        if k == 'GotoStmt':
            return [Outcome('goto', self.st, n.get('targetLabelDeclId'))]
        if k == 'LabelStmt':
            return self.stmt1(n['inner'][0]) if n.get('inner') else self.normal()
        if k == 'AttributedStmt':
            return self.stmt1(n['inner'][-1])
        if k == 'SwitchStmt':
            return self.switch(n)
        # expression statement
        self.ev(n, void=True)
        if self.st.pc and self.st.pc[-1][1] is FALSE:       # it does not return
            return []
        return self.normal()

    def switch(self, n):
        inner = [c for c in n['inner'] if c]
        v = as_int(self.ev(inner[0]))
        body = inner[-1]
        # flatten into list of (case consts | None, stmts)
        items = []

        def flat_case(c):
            if c.get('kind') == 'CaseStmt':
                x = is_const(as_int(self.ev(c['inner'][0])))
                if x is None:
                    raise Unsupported('case label')
                items.append(('case', int(x)))
                flat_case(c['inner'][-1])
            elif c.get('kind') == 'DefaultStmt':
                items.append(('default', None))
                flat_case(c['inner'][-1])
            else:
                items.append(('stmt', c))
        for c in body.get('inner', ()):
            flat_case(c)
        labels = [(i, x) for i, (t, x) in enumerate(items) if t == 'case']
        outs = []
        base = self.st
        rest = []
        starts = []
        for i, x in labels:
            starts.append((eq(v, I(x)), i))
            rest.append(ne(v, I(x)))
        di = next((i for i, (t, _) in enumerate(items) if t == 'default'), len(items))
        starts.append((and_(*rest), di))
        for c, i in starts:
            self.st = base
            c = self.simp_bool(c)
            if c is FALSE:
                continue
            s = base.copy()
            if c is not TRUE:
                s.pc = s.pc + (('c', c),)
            res = self.stmts([x for t, x in items[i:] if t == 'stmt'], [s])
            for o in res:
                if o.kind == 'break':
                    o.kind = 'normal'
                outs.append(o)
        return self.join(base.pc, outs)

    def ret_type(self):
        t = ty(self.frames[-1].fn)
        return t.split('(')[0].strip()

    def simp_bool(self, c):
        if c in (TRUE, FALSE):
            return c
        d = self.decide(c)
        if d is True:
            return TRUE
        if d is False:
            return FALSE
        return c

    def settle(self, br):
        """cells written on some paths only, once the branch condition says which"""
        vs = {x for x in subterms_set(br) if x.kind in ('var', 'vatom')}
        cache = {}

        def dec(c):
            if c not in cache:
                cache[c] = self.decide(c) if c is br or not vs.isdisjoint(subterms_set(c)) else None
            return cache[c]
        for k, v in list(self.st.cells.items()):
            if isinstance(v, Maybe) and dec(v.cond) is True:
                self.st.cells[k] = v.val
        # outcomes of a called function (booleans of its contract), once a test of its status has fixed them
        outc = [x for x in vs if x.sort == 'B' and x.args[0].startswith('c!')]
        if not outc:
            return
        for x in outc:
            d = dec(x)
            if d is None:
                continue
            mp = {x: TRUE if d else FALSE}
            for a, v in list(self.st.arrs.items()):
                if x in subterms_set(v):
                    self.st.arrs[a] = subst(v, mp)
            for k, v in list(self.st.cells.items()):
                if isinstance(v, D) and (x in subterms_set(v.t) or x in subterms_set(v.nan)):
                    self.st.cells[k] = D(subst(v.t, mp), subst(v.nan, mp))
                elif isinstance(v, Term) and x in subterms_set(v):
                    self.st.cells[k] = subst(v, mp)

    def fork(self, c, th, el):
        base = self.st
        outs = []
        if c is not FALSE:
            self.st = base.copy()
            if c is not TRUE:
                self.assume(c, 'c')
                self.settle(c)
            outs += th()
        if c is not TRUE:
            self.st = base.copy()
            if c is not FALSE:
                self.assume(not_(c), 'c')
                self.settle(c)
            outs += el()
        return self.join(base.pc, outs)

    def join(self, base_pc, outs):
        norm = [o for o in outs if o.kind == 'normal']
        rest = [o for o in outs if o.kind != 'normal']
        if len(norm) > 1:
            try:
                st, _ = merge_states(base_pc, [o.st for o in norm])
                norm = [Outcome('normal', st)]
            except MergeFail:
                pass
        return norm + rest

    def decl(self, d):
        fr = self.frames[-1]
        t = ty(d)
        k = tkind(t)
        if d.get('storageClass') == 'static' and 'const' not in d.get('type', {}).get('qualType', ''):
            # keeps its value between calls: any value of its type may be there
            key = (fr.unit.path, 'static.' + d['id'])
            if key not in self.globals:
                o = Obj(d['name'], 'cells', rtype=t)
                if k == 'int':
                    v = var('static.%s' % d['name'], 'I')
                    o.gfact = and_(ge(v, I(-2**31)), le(v, I(2**31 - 1)))
                    o.gdefault = v
                elif k == 'real':
                    o.gdefault = D(var('static.%s' % d['name'], 'R'))
                else:
                    raise Unsupported('static local')
                self.globals[key] = o
            o = self.globals[key]
            if getattr(o, 'gfact', None) is not None:
                self.assume(o.gfact)
            fr.env[d['id']] = o
            return
        init = [c for c in d.get('inner', ()) if c.get('kind') and not c['kind'].endswith('Attr') and 'Comment' not in c['kind']]
        if k == 'array':
            m = re.match(r'(.*)\[(\d+)\]$', clean_type(t))
            et = m.group(1).strip()
            et = fr.unit.typedefs.get(et, et)
            ek = tkind(et)
            if ek == 'ptr':
                o = Obj(d['name'], 'ptrs', length=I(int(m.group(2))), rtype=t)
                for i in range(int(m.group(2))):
                    self.st.cells[(o, (i,))] = UNDEF
                if init and init[0].get('kind') == 'InitListExpr':
                    its = [c for c in self.sub(init[0]) if c.get('kind') != 'ImplicitValueInitExpr']
                    for i in range(int(m.group(2))):
                        self.st.cells[(o, (i,))] = self.coerce(self.ev(its[i]), et) if i < len(its) else NULL
            elif et == 'char':
                o = Obj(d['name'], 'str', rtype=t)
                self.st.cells[(o, ())] = I(0)
            elif ek in ('real', 'int'):
                o = self.new_arr(d['name'], I(int(m.group(2))), 'R' if ek == 'real' else 'I', init=False, local=True)
                o.aligned = False
                if init and init[0].get('kind') == 'InitListExpr':
                    z = vconst(0) if ek == 'real' else vlam(lambda k: I(0), 'I')
                    self.st.arrs[o] = z
                    del self.st.init[o]
                    for i, c in enumerate(c for c in init[0].get('inner', ()) if c.get('kind') != 'ImplicitValueInitExpr'):
                        self.write_elem(o, I(i), self.ev(c))
            else:
                raise Unsupported('local array of ' + et)
            fr.env[d['id']] = o
            fr.objs.append(o)
            return
        o = Obj(d['name'], 'cells', rtype=t)
        o.local = True
        if init:
            v = self.ev(init[0])
            v = self.coerce(v, t)
        else:
            v = UNDEF
        fr.env[d['id']] = o
        fr.objs.append(o)
        if k == 'struct' and not isinstance(v, SV):
            v = SV({p: UNDEF for p, _ in self.leaf_paths(t)})
        self.lv_write(('cell', o, ()), v)

    # ------------------------------------------------------------------ expressions
    def guarded(self, c, f):
        """evaluate f under condition c; returns (value, state)"""
        self.st = self.st.copy()
        self.assume(c, 'c')
        v = f()
        return v, self.st

    def cond_ev(self, c, fa, fb):
        """c ? fa() : fb() with state merging"""
        c = self.simp_bool(c)
        if c is TRUE:
            return fa()
        if c is FALSE:
            return fb()
        base = self.st
        va, sa = self.guarded(c, fa)
        self.st = base
        vb, sb = self.guarded(not_(c), fb)
        st, v = merge_states(base.pc, [sa, sb], [va, vb])
        self.st = st
        return v

    def ev(self, n, void=False):
        k = n['kind']
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k)
        return m(n)

    def sub(self, n):
        return [c for c in n.get('inner', ()) if c.get('kind')]

    def ev_ParenExpr(self, n): return self.ev(n['inner'][0])
    def ev_ConstantExpr(self, n): return self.ev(n['inner'][0])
    def ev_ExprWithCleanups(self, n): return self.ev(n['inner'][0])
    def ev_MaterializeTemporaryExpr(self, n): return self.ev(n['inner'][0])
    def ev_CXXBindTemporaryExpr(self, n): return self.ev(n['inner'][0])
    def ev_CXXFunctionalCastExpr(self, n): return self.ev_ImplicitCastExpr(n)
    def ev_CXXStaticCastExpr(self, n): return self.ev_ImplicitCastExpr(n)
    def ev_CompoundLiteralExpr(self, n): return self.ev(n['inner'][0])
    def ev_IntegerLiteral(self, n): return I(int(n['value']))
    def ev_CharacterLiteral(self, n): return I(int(n['value']))
    def ev_CXXBoolLiteralExpr(self, n): return TRUE if n['value'] else FALSE
    def ev_CXXNullPtrLiteralExpr(self, n): return NULL
    def ev_GNUNullExpr(self, n): return NULL

    def ev_FloatingLiteral(self, n):
        v = float(n['value'])
        if v in (float('inf'), float('-inf')):
            return D(self.inf())
        return D(R(Fraction(repr(v))))

    def inf(self):
        v = var('INFINITY', 'R')
        self.assume(ge(v, R(10**300)))
        return v

    def ev_StringLiteral(self, n):
        o = Obj('string', 'str')
        o.text = n.get('value')
        self.st.cells[(o, ())] = I(0)
        return Ptr(o)

    def ev_PredefinedExpr(self, n):
        return self.ev_StringLiteral(n)

    def ev_ImplicitValueInitExpr(self, n):
        return self.zero(ty(n))

    def zero(self, t):
        k = tkind(t)
        if k == 'real':
            return D(R(0))
        if k == 'ptr':
            return FnV(None, TRUE) if '(*' in clean_type(t) else NULL
        if k == 'struct':
            return SV({p: self.zero(ft) for p, ft in self.leaf_paths(t)})
        return I(0)

    def ev_InitListExpr(self, n):
        t = ty(n)
        k = tkind(t)
        items = self.sub(n)
        if k == 'struct':
            f = {}
            fields = self.record_fields(t)
            for (nm, ft), it in zip(fields, items):
                v = self.coerce(self.ev(it), ft)
                if isinstance(v, SV):
                    for p, x in v.f.items():
                        f[(nm,) + p] = x
                else:
                    f[(nm,)] = v
            for nm, ft in fields[len(items):]:
                v = self.zero(ft)
                if isinstance(v, SV):
                    for p, x in v.f.items():
                        f[(nm,) + p] = x
                else:
                    f[(nm,)] = v
            return SV(f)
        if len(items) == 1:
            return self.ev(items[0])
        raise Unsupported('initializer list')

    def ev_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') != 'sizeof':
            raise Unsupported(n.get('name'))
        at = n.get('argType')
        if at:
            t = at.get('desugaredQualType', at.get('qualType'))
        else:
            t = ty(n['inner'][0])
        return I(self.sizeof(t))

    def lval(self, n):
        k = n['kind']
        if k in ('ParenExpr', 'ConstantExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr'):
            return self.lval(n['inner'][0])
        if k == 'ImplicitCastExpr' and n.get('castKind') in ('NoOp', 'LValueBitCast'):
            return self.lval(n['inner'][0])
        if k == 'DeclRefExpr':
            ref = n['referencedDecl']
            if ref['kind'] == 'FunctionDecl':
                return ('fn', ref['name'])
            o = self.lookup(ref, n)
            if o.kind in ('arr', 'ptrs', 'str'):
                return ('obj', o)
            return ('cell', o, ())
        if k == 'MemberExpr':
            base = n['inner'][0]
            if n.get('isArrow'):
                lv = self.deref(self.ev(base), n)
            else:
                if base.get('valueCategory') == 'lvalue':
                    lv = self.lval(base)
                else:
                    v = self.ev(base)
                    o = Obj('tmp', 'cells', rtype=ty(base))
                    self.frames[-1].objs.append(o)
                    self.lv_write(('cell', o, ()), v)
                    lv = ('cell', o, ())
            if lv[0] == 'node' and lv[3] is None:
                return ('node', lv[1], lv[2], n['name'])
            if lv[0] != 'cell':
                raise Unsupported('member of %r' % (lv,))
            return ('cell', lv[1], lv[2] + (n['name'],))
        if k == 'ArraySubscriptExpr':
            b, i = n['inner'][0], n['inner'][1]
            p = self.ev(b)
            ix = self.ev(i)
            if isinstance(p, Term):
                p, ix = ix, p
            return self.deref(self.padd(p, as_int(ix), n), n)
        if k == 'UnaryOperator' and n['opcode'] == '*':
            v = self.ev(n['inner'][0])
            if isinstance(v, FnV):
                return ('fnv', v)
            return self.deref(v, n)
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            self.ev(n)
            return self.lval(n['inner'][0])
        if k in ('BinaryOperator', 'CompoundAssignOperator', 'CXXOperatorCallExpr'):
            self.ev(n)
            return self.lval(n['inner'][0] if k != 'CXXOperatorCallExpr' else n['inner'][1])
        if k == 'CompoundLiteralExpr':
            o = Obj('lit', 'cells', rtype=ty(n))
            self.frames[-1].objs.append(o)
            self.lv_write(('cell', o, ()), self.ev(n))
            return ('cell', o, ())
        if k in ('StringLiteral', 'PredefinedExpr'):
            return ('obj', self.ev_StringLiteral(n).obj)
        raise Unsupported('lvalue ' + k)

    def ev_DeclRefExpr(self, n):
        ref = n['referencedDecl']
        if ref['kind'] == 'EnumConstantDecl':
            for u in self.units:
                if ref['id'] in u.enums and u is self.frames[-1].unit:
                    return I(u.enums[ref['id']])
            return I(self.frames[-1].unit.enums[ref['name']])
        lv = self.lval(n)
        if lv[0] == 'fn':
            return FnV((self.frames[-1].unit, lv[1]))
        if lv[0] == 'obj':
            return Ptr(lv[1])
        return self.lv_read(lv, n)

    def ev_MemberExpr(self, n): return self.lv_read(self.lval(n), n)
    def ev_ArraySubscriptExpr(self, n): return self.lv_read(self.lval(n), n)

    def ev_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        e = n['inner'][0]
        if ck == 'LValueToRValue':
            lv = self.lval(e)
            if lv[0] == 'obj':
                return Ptr(lv[1])
            if lv[0] == 'fn':
                return FnV((self.frames[-1].unit, lv[1]))
            return self.lv_read(lv, n)
        if ck == 'ArrayToPointerDecay':
            lv = self.lval(e)
            if lv[0] == 'obj':
                return Ptr(lv[1])
            return Ptr(lv[1], None, FALSE, lv[2])
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            if e['kind'] in ('DeclRefExpr', 'ParenExpr'):
                while e['kind'] == 'ParenExpr':
                    e = e['inner'][0]
                if e['kind'] == 'DeclRefExpr':
                    return FnV((self.frames[-1].unit, e['referencedDecl']['name']))
            return self.ev(e)
        if ck == 'NullToPointer':
            return NULL
        if ck == 'ToVoid':
            self.ev(e)
            return None
        v = self.ev(e)
        t = clean_type(ty(n))
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion'):
            return v
        if ck in ('BitCast', 'LValueBitCast'):
            return self.ptr_cast(v, t, n)
        if ck == 'IntegralCast':
            return self.int_cast(as_int(v), t, clean_type(ty(e)), n)
        if ck == 'IntegralToFloating':
            return D(to_real(as_int(v)))
        if ck == 'FloatingCast':
            return v
        if ck == 'FloatingToIntegral':
            r = real_to_int(v.t)
            if r is None:
                c = is_const(v.t)
                if c is not None:
                    return I(int(c))
                r = uf('trunc', 'I', v.t)
                self.assume(and_(ge(r, I(-2**31)), le(r, I(2**31 - 1))))
            return r
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            return as_bool(v)
        if ck == 'BooleanToSignedIntegral':
            return as_int(v)
        if ck == 'PointerToIntegral':
            raise Unsupported('pointer to integer')
        if ck == 'IntegralToPointer':
            if is_const(as_int(v)) == 0:
                return NULL
        raise Unsupported('cast ' + str(ck))

    ev_CStyleCastExpr = ev_ImplicitCastExpr

    def int_cast(self, v, t, f, n):
        if t in ('unsigned long', 'unsigned int', 'size_t', 'unsigned long long'):
            c = is_const(v)
            w = 2**64 if 'long' in t or t == 'size_t' else 2**32
            if c is not None:
                return I(int(c) % w)
            if f in ('int', 'long', 'char') or f.startswith('enum'):
                d = self.decide(ge(v, I(0)))
                if d is not True:
                    return ite(lt(v, I(0)), v + I(w), v)
            return v
        if t in ('int',) or t.startswith('enum'):
            c = is_const(v)
            if c is not None:
                c = int(c)
                if not -2**31 <= c < 2**31:
                    c = (c + 2**31) % 2**32 - 2**31
                return I(c)
            if f in ('unsigned int', 'unsigned long', 'long'):
                if self.decide(and_(ge(v, I(-2**31)), le(v, I(2**31 - 1)))) is not True:
                    self.obl('overflow', and_(ge(v, I(-2**31)), le(v, I(2**31 - 1))), 'conversion to int keeps the value', n)
            return v
        return v

    def scalar_alias(self, t):
        """a typedef of a scalar type, resolved"""
        for _ in range(5):
            r = next((clean_type(u.typedefs[t]) for u in self.units if t in u.typedefs), None)
            if r is None or tkind(r) == 'struct' and not any(r in u.typedefs for u in self.units):
                return t
            if tkind(r) != 'struct':
                return r
            t = r
        return t

    def ptr_cast(self, v, t, n):
        if isinstance(v, (FnV,)) or not isinstance(v, Ptr):
            return v
        o = v.obj
        if o is None:
            return FnV(None, TRUE) if '(*' in t else v
        if o.kind == 'raw' and t.endswith('*') and t[:-1].strip() not in ('void', 'char'):
            el = self.scalar_alias(t[:-1].strip())
            k = tkind(el)
            b = o.bytes
            sz = self.sizeof(el)
            ln = ediv(b, I(sz))
            o.rtype = el
            if k in ('real', 'int'):
                o.kind, o.elem, o.len = 'arr', ('R' if k == 'real' else 'I'), ln
                if o.zero:
                    self.st.arrs[o] = vconst(0) if k == 'real' else vlam(lambda q: I(0), 'I')
                else:
                    self.st.arrs[o] = vatom('heap_%d' % o.id, o.elem)
                    self.st.init[o] = vlam(lambda q: I(0), 'I')
            elif k == 'ptr':
                c = is_const(self.simp(ln))
                if c is None:
                    raise Unsupported('pointer array of symbolic length')
                o.kind, o.len = 'ptrs', I(int(c))
                for i in range(int(c)):
                    self.st.cells[(o, (i,))] = NULL if o.zero else UNDEF
            elif k == 'struct':
                self.obl('safety', ge(b, I(sz)), 'allocation is large enough for %s' % el, n)
                o.kind, o.len = 'cells', I(1)
                for p, ft in self.leaf_paths(el):
                    self.st.cells[(o, p)] = self.zero(ft) if o.zero else UNDEF
            else:
                raise Unsupported('allocation cast to ' + t)
        return v

    def padd(self, p, k, n):
        if isinstance(p, Ptr):
            return Ptr(p.obj, p.off + k, p.null, p.path)
        raise Unsupported('pointer arithmetic on %r' % (p,))

    def check_range(self, t, typ, n):
        if self.mute or 'overflow' not in self.cats:
            return
        r = INTR.get(typ)
        if r is None or typ.startswith('unsigned'):
            return
        c = is_const(t)
        if c is not None and r[0] <= c <= r[1]:
            return
        self.obl('overflow', and_(ge(t, I(r[0])), le(t, I(r[1]))), 'index arithmetic does not overflow', n)

    def arith(self, op, a, b, typ, n):
        if isinstance(a, D) or isinstance(b, D):
            a, b = as_d(a), as_d(b)
            nan = or_(a.nan, b.nan)
            if op == '+':
                return D(a.t + b.t, nan)
            if op == '-':
                return D(a.t - b.t, nan)
            if op == '*':
                return D(a.t * b.t, nan)
            if op == '/':
                c = is_const(b.t)
                if c is None:
                    if self.decide(ne(b.t, R(0))) is not True:
                        if not P.prove(self.hyps(), ne(b.t, R(0)), 4, 1):
                            nan = or_(nan, eq(b.t, R(0)))
                elif c == 0:
                    nan = TRUE
                return D(div(a.t, b.t), nan)
            raise Unsupported('float op ' + op)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == '+':
                p, k = (a, b) if isinstance(a, Ptr) else (b, a)
                return self.padd(p, as_int(k), n)
            if op == '-':
                if isinstance(b, Ptr) and isinstance(a, Ptr):
                    if a.obj is b.obj:
                        return a.off - b.off
                    raise Unsupported('difference of unrelated pointers')
                return self.padd(a, neg(as_int(b)), n)
        a, b = as_int(a), as_int(b)
        if op == '+':
            r = a + b
        elif op == '-':
            r = a - b
        elif op == '*':
            r = a * b
        elif op in ('/', '%'):
            ca, cb = is_const(a), is_const(b)
            if cb is None or cb == 0:
                self.obl('safety', ne(b, I(0)), 'division by zero does not occur', n)
            if ca is not None and cb:
                q = int(abs(ca) // abs(cb)) * (1 if ca * cb >= 0 else -1)
                return I(q) if op == '/' else I(int(ca) - int(cb) * q)
            pos = self.decide(and_(ge(a, I(0)), gt(b, I(0))))
            if pos is True:
                q = ediv(a, b)
            else:
                q = uf('cdiv', 'I', a, b)
            return q if op == '/' else a - b * q
        elif op in ('&', '|', '^', '<<', '>>'):
            return self.bitop(op, a, b)
        else:
            raise Unsupported('int op ' + op)
        self.check_range(r, typ, n)
        return r

    def bitop(self, op, a, b):
        ca, cb = is_const(a), is_const(b)
        if ca is not None and cb is not None:
            x, y = int(ca), int(cb)
            return I({'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y if y >= 0 else 0, '>>': x >> y if y >= 0 else 0}[op])
        for (u, cu) in ((a, ca), (b, cb)):
            at = single_atom(u)
            if at is not None and at.kind == 'ite':
                c, x, y = at.args
                if u is a:
                    return ite(c, self.bitop(op, x, b), self.bitop(op, y, b))
                return ite(c, self.bitop(op, a, x), self.bitop(op, a, y))
            if cu is None and u.kind == 'poly' and len(u.args) == 2 and P.find_ites(u):
                it = P.find_ites(u)[0]
                c = it.args[0]
                u1, u2 = P.subst_ites(u, c, True), P.subst_ites(u, c, False)
                if u is a:
                    return ite(c, self.bitop(op, u1, b), self.bitop(op, u2, b))
                return ite(c, self.bitop(op, a, u1), self.bitop(op, a, u2))
        if op == '&':
            if ca is not None:
                a, b, ca, cb = b, a, cb, ca
            if cb is not None:
                c = int(cb)
                if c < 0 and (-c) & (-c - 1) == 0:
                    return a - emod(a, I(-c))          # two's complement, floor
                if c >= 0 and (c + 1) & c == 0:
                    return emod(a, I(c + 1))
        if op == '<<' and cb is not None:
            return a * I(2 ** int(cb))
        if op == '>>' and cb is not None:
            return ediv(a, I(2 ** int(cb)))
        r = uf('bit' + op, 'I', a, b)
        if op == '|':
            self.assume(or_(ne(a, I(0)), eq(r, b)))
            self.assume(or_(ne(b, I(0)), eq(r, a)))
        return r

    def compare(self, op, a, b, n=None):
        if isinstance(a, D) or isinstance(b, D):
            a, b = as_d(a), as_d(b)
            nan = or_(a.nan, b.nan)
            if op == '!=':
                return or_(nan, ne(a.t, b.t))
            f = {'<': lt, '<=': le, '>': gt, '>=': ge, '==': eq}[op]
            return and_(not_(nan), f(a.t, b.t))
        if isinstance(a, FnV) or isinstance(b, FnV):
            if isinstance(a, Ptr) or (isinstance(a, FnV) and a.key is None):
                a, b = b, a
            nullb = isinstance(b, Ptr) and b.obj is None or isinstance(b, FnV) and b.key is None
            if nullb:
                return a.null if op == '==' else not_(a.null)
            raise Unsupported('comparison of function pointers')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Term):
                a = NULL
            if isinstance(b, Term):
                b = NULL
            if op in ('==', '!='):
                if a.obj is None:
                    r = isnull(b) if b.obj is not None else TRUE
                elif b.obj is None:
                    r = isnull(a)
                elif a.obj is b.obj and a.path == b.path:
                    an, bn = (FALSE if x.null is not FALSE and self.decide(not_(x.null)) is True else x.null for x in (a, b))
                    r = ite(or_(an, bn), and_(an, bn), eq(a.off, b.off))
                else:
                    r = and_(a.null, b.null)
                return r if op == '==' else not_(r)
            if a.obj is b.obj and a.obj is not None:
                return {'<': lt, '<=': le, '>': gt, '>=': ge}[op](a.off, b.off)
            raise Unsupported('pointer comparison')
        if isinstance(a, Term) and isinstance(b, Term) and a.sort == 'B' and b.sort == 'B' and op in ('==', '!='):
            return iff(a, b) if op == '==' else not_(iff(a, b))
        a, b = as_int(a), as_int(b)
        return {'<': lt, '<=': le, '>': gt, '>=': ge, '==': eq, '!=': ne}[op](a, b)

    def ev_BinaryOperator(self, n):
        op = n['opcode']
        l, r = n['inner']
        if op == '=':
            v = self.ev(r)
            lv = self.lval(l)
            v = self.coerce(v, ty(l))
            self.lv_write(lv, v, n)
            return v
        if op == ',':
            self.ev(l)
            return self.ev(r)
        if op == '&&':
            a = as_bool(self.ev(l))
            return self.cond_ev(a, lambda: as_bool(self.ev(r)), lambda: FALSE)
        if op == '||':
            a = as_bool(self.ev(l))
            return self.cond_ev(a, lambda: TRUE, lambda: as_bool(self.ev(r)))
        a = self.ev(l)
        b = self.ev(r)
        if op in ('<', '<=', '>', '>=', '==', '!='):
            return self.compare(op, a, b, n)
        return self.arith(op, a, b, clean_type(ty(n)), n)

    def ev_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        l, r = n['inner']
        b = self.ev(r)
        lv = self.lval(l)
        a = self.lv_read(lv, n)
        v = self.arith(op, a, b, clean_type(ty(l)), n)
        v = self.coerce(v, ty(l))
        self.lv_write(lv, v, n)
        return v

    def ev_UnaryOperator(self, n):
        op = n['opcode']
        e = n['inner'][0]
        if op == '&':
            if e['kind'] == 'DeclRefExpr' and e['referencedDecl']['kind'] == 'FunctionDecl':
                return FnV((self.frames[-1].unit, e['referencedDecl']['name']))
            lv = self.lval(e)
            if lv[0] == 'elem':
                return Ptr(lv[1], lv[2])
            if lv[0] == 'obj':
                return Ptr(lv[1])
            o, path = lv[1], lv[2]
            if o.kind == 'ptrs':
                return Ptr(o, I(path[-1]), FALSE, path[:-1])
            return Ptr(o, None, FALSE, path)
        if op == '*':
            lv = self.lval(n)
            if lv[0] == 'fnv':
                return lv[1]
            return self.lv_read(lv, n)
        if op in ('++', '--'):
            lv = self.lval(e)
            a = self.lv_read(lv, n)
            d = 1 if op == '++' else -1
            if isinstance(a, Ptr):
                v = self.padd(a, I(d), n)
            elif isinstance(a, D):
                v = D(a.t + R(d), a.nan)
            else:
                v = self.arith('+', a, I(d), clean_type(ty(e)), n)
            self.lv_write(lv, v, n)
            return a if n.get('isPostfix') else v
        v = self.ev(e)
        if op == '-':
            if isinstance(v, D):
                return D(neg(v.t), v.nan)
            r = neg(as_int(v))
            self.check_range(r, clean_type(ty(n)), n)
            return r
        if op == '+':
            return v
        if op == '!':
            return not_(as_bool(v))
        if op == '~':
            return neg(as_int(v)) - I(1)
        if op in ('__extension__',):
            return v
        raise Unsupported('unary ' + op)

    def ev_ConditionalOperator(self, n):
        c, a, b = n['inner']
        cv = as_bool(self.ev(c))
        t = ty(n)
        return self.cond_ev(cv, lambda: self.coerce(self.ev(a), t), lambda: self.coerce(self.ev(b), t))

    def ev_StmtExpr(self, n):
        raise Unsupported('statement expression')

    def ev_CallExpr(self, n):
        callee = n['inner'][0]
        name = self.callee_name(callee)
        if name and name.startswith('__builtin_'):
            r = self.builtin(name, n)
            if r is not None:
                return r
        f = None
        if name is None:
            f = self.ev(callee)
        args = []
        for a in n['inner'][1:]:
            v = self.ev(a)
            if isinstance(v, SV) or not isinstance(v, (D, Ptr, FnV, Term)):
                pass
            args.append(v)
        self._curline = n.get('_l', self._curline)
        if f is not None:
            if not isinstance(f, FnV):
                raise Unsupported('call through %r' % (f,))
            if f.null is not FALSE:
                self.obl('live', not_(f.null), 'called function pointer is not null', n)
            if f.key is None:
                raise Unsupported('call through null')
            return self.call_fn(f.key, args, n)
        return self.call_fn(name, args, n, self.frames[-1].unit)

    def callee_name(self, c):
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            c = c['inner'][0]
        if c['kind'] == 'DeclRefExpr' and c['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return c['referencedDecl']['name']
        if c['kind'] == 'UnaryOperator' and c['opcode'] in ('*', '&'):
            return self.callee_name(c['inner'][0])
        return None

    def builtin(self, name, n):
        args = n['inner'][1:]
        if name in ('__builtin_nanf', '__builtin_nan'):
            return D(fresh('nanval', 'R'), TRUE)
        if name in ('__builtin_inff', '__builtin_inf', '__builtin_huge_val'):
            return D(self.inf())
        if name == '__builtin_assume_aligned':
            p = self.ev(args[0])
            a = self.ev(args[1])
            if isinstance(p, Ptr) and p.obj is not None and not self.mute:
                ok = and_(TRUE if p.obj.aligned else FALSE, eq(emod(p.off, I(8)), I(0)))
                self.obl('align', or_(ok, p.null), '%s is aligned as assumed' % p.obj.name, n)
            return p
        if name in ('__builtin_expect',):
            return self.ev(args[0])
        if name in ('__builtin_isnan',):
            return as_d(self.ev(args[0])).nan
        if name in ('__builtin_fabs',):
            return self.lib['fabs'](self, [self.ev(args[0])], n)
        return None

    # ---- C++ bits (Vec4d)
    def ev_CXXConstructExpr(self, n):
        t = clean_type(ty(n)).split('::')[-1]
        if t != 'Vec4d':
            raise Unsupported('construct ' + t)
        a = self.sub(n)
        if not a:
            return SV({('l%d' % i,): UNDEF for i in range(4)})
        vs = [self.ev(x) for x in a if x['kind'] != 'CXXDefaultArgExpr']
        if not vs:
            return SV({('l%d' % i,): UNDEF for i in range(4)})
        if len(vs) == 1 and isinstance(vs[0], SV):
            return vs[0]
        if len(vs) == 1:
            return SV({('l%d' % i,): as_d(vs[0]) for i in range(4)})
        if len(vs) == 4:
            return SV({('l%d' % i,): as_d(vs[i]) for i in range(4)})
        raise Unsupported('Vec4d construct')

    def lanes(self, v):
        if isinstance(v, SV):
            return [v.f[('l%d' % i,)] for i in range(4)]
        return [as_d(v)] * 4

    def ev_CXXMemberCallExpr(self, n):
        me = n['inner'][0]
        base = me['inner'][0]
        args = [self.ev(a) for a in n['inner'][1:] if a['kind'] != 'CXXDefaultArgExpr']
        nm = me['name']
        lv = self.lval(base)
        if nm in ('load', 'load_a'):
            p = args[0]
            if nm == 'load_a' and not self.mute:
                self.obl('align', or_(and_(TRUE if p.obj.aligned else FALSE, eq(emod(p.off, I(4)), I(0)))), 'aligned vector load', n)
            vals = []
            for i in range(4):
                vals.append(self.lv_read(self.deref(self.padd(p, I(i), n), n), n))
            v = SV({('l%d' % i,): vals[i] for i in range(4)})
            self.lv_write(lv, v)
            return v
        if nm in ('store', 'store_a'):
            p = args[0]
            if nm == 'store_a' and not self.mute:
                self.obl('align', or_(and_(TRUE if p.obj.aligned else FALSE, eq(emod(p.off, I(4)), I(0)))), 'aligned vector store', n)
            v = self.lv_read(lv, n)
            for i in range(4):
                self.lv_write(self.deref(self.padd(p, I(i), n), n), v.f[('l%d' % i,)], n)
            return None
        raise Unsupported('method ' + nm)

    def ev_CXXOperatorCallExpr(self, n):
        op = self.callee_name(n['inner'][0])
        a = n['inner'][1:]
        sym = op.replace('operator', '').strip()
        if sym in ('+', '-', '*', '/') and len(a) == 2:
            x, y = self.ev(a[0]), self.ev(a[1])
            return SV({('l%d' % i,): self.arith(sym, p, q, 'double', n) for i, (p, q) in enumerate(zip(self.lanes(x), self.lanes(y)))})
        if sym == '-' and len(a) == 1:
            x = self.ev(a[0])
            return SV({('l%d' % i,): D(neg(p.t), p.nan) for i, p in enumerate(self.lanes(x))})
        if sym in ('+=', '-=', '*=', '/='):
            y = self.ev(a[1])
            lv = self.lval(a[0])
            x = self.lv_read(lv, n)
            v = SV({('l%d' % i,): self.arith(sym[0], p, q, 'double', n) for i, (p, q) in enumerate(zip(self.lanes(x), self.lanes(y)))})
            self.lv_write(lv, v)
            return v
        if sym == '=':
            y = self.ev(a[1])
            lv = self.lval(a[0])
            v = SV({('l%d' % i,): p for i, p in enumerate(self.lanes(y))})
            self.lv_write(lv, v)
            return v
        raise Unsupported('operator ' + op)
