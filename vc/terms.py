"""Hash-consed terms with automatic polynomial normal form.

Sorts: 'I' (mathematical integers), 'R' (reals), 'B' (booleans), 'V:R' / 'V:I' (vectors: total
functions Int -> elem).  Every numeric term is a polynomial with rational coefficients over "atoms".
"""
from fractions import Fraction

_tab = {}
_cnt = [0]


class Term:
    __slots__ = ("kind", "sort", "args", "id", "_bvs", "_atoms", "_h", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    # numeric sugar
    def __add__(self, o):
        return add(self, lift(o, self.sort))

    __radd__ = __add__

    def __sub__(self, o):
        return add(self, neg(lift(o, self.sort)))

    def __rsub__(self, o):
        return add(lift(o, self.sort), neg(self))

    def __mul__(self, o):
        return mul(self, lift(o, self.sort))

    __rmul__ = __mul__

    def __neg__(self):
        return neg(self)

    def __truediv__(self, o):
        return div(self, lift(o, 'R'))

    def __getitem__(self, k):
        return app(self, k if isinstance(k, Term) else I(k))


def mk(kind, sort, *args):
    key = (kind, sort, args)
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.kind, t.sort, t.args = kind, sort, args
        _cnt[0] += 1
        t.id = _cnt[0]
        t._h = t.id * 2654435761 & 0x7fffffffffff
        t._bvs = None
        t._atoms = None
        _tab[key] = t
    return t


def lift(o, sort='R'):
    if isinstance(o, Term):
        return o
    if isinstance(o, bool):
        return TRUE if o else FALSE
    if isinstance(o, int):
        return const(Fraction(o), sort if sort in ('I', 'R') else 'I')
    if isinstance(o, Fraction):
        return const(o, 'R')
    if isinstance(o, float):
        return const(Fraction(o), 'R')
    raise TypeError(o)


# ---------------------------------------------------------------- numeric
def poly(d, sort):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0),
                         key=lambda mc: tuple((a.id, e) for a, e in mc[0])))
    return mk('poly', sort, *items)


def const(q, sort):
    q = Fraction(q)
    return poly({(): q}, sort)


def I(n):
    return const(Fraction(n), 'I')


def R(q):
    return const(Fraction(q), 'R')


def pd(t):
    """dict of monomials of numeric term."""
    return dict(t.args)


def of_atom(a):
    return mk('poly', a.sort, (((a, 1),), Fraction(1)))


def is_const(t):
    if t.kind != 'poly':
        return None
    if not t.args:
        return Fraction(0)
    if len(t.args) == 1 and t.args[0][0] == ():
        return t.args[0][1]
    return None


def single_atom(t):
    if t.kind == 'poly' and len(t.args) == 1 and t.args[0][1] == 1:
        m = t.args[0][0]
        if len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def jsort(a, b):
    return 'R' if 'R' in (a.sort, b.sort) else 'I'


def add(a, b):
    s = jsort(a, b)
    d = dict(a.args)
    for m, c in b.args:
        d[m] = d.get(m, 0) + c
    return poly(d, s)


def neg(a):
    return mk('poly', a.sort, *((m, -c) for m, c in a.args))


def scale(a, q):
    q = Fraction(q)
    if q == 0:
        return poly({}, a.sort)
    return mk('poly', a.sort, *((m, c * q) for m, c in a.args))


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].id))


def _red_mono(m):
    """constant sqrt reduction: sqrt(c)^2 -> c ; returns (mono, coef)"""
    coef = Fraction(1)
    out = None
    for i, (a, e) in enumerate(m):
        if e >= 2 and a.kind == 'sqrt':
            c = is_const(a.args[0])
            if c is not None and c >= 0:
                if out is None:
                    out = list(m[:i])
                coef *= c ** (e // 2)
                if e % 2:
                    out.append((a, 1))
                continue
        if out is not None:
            out.append((a, e))
    return (m if out is None else tuple(out)), coef


def mul(a, b):
    s = jsort(a, b)
    d = {}
    for m1, c1 in a.args:
        for m2, c2 in b.args:
            m, k = _red_mono(mono_mul(m1, m2))
            d[m] = d.get(m, 0) + c1 * c2 * k
    return poly(d, s)


def to_real(t):
    if t.sort == 'R':
        return t
    return mk('poly', 'R', *t.args)


def ipow(a, n):
    r = const(1, a.sort)
    for _ in range(n):
        r = mul(r, a)
    return r


def monic(p):
    """(lead coefficient, p/lead)"""
    c = p.args[0][1]
    # prefer a non-constant leading monomial
    for m, cc in p.args:
        if m:
            c = cc
            break
    return c, scale(p, 1 / c)


def inv(p):
    c = is_const(p)
    p = to_real(p)
    if c is not None:
        if c == 0:
            return of_atom(mk('var', 'R', 'one_by_zero'))
        return const(1 / c, 'R')
    if len(p.args) == 1:
        m, c = p.args[0]
        r = const(1 / c, 'R')
        for a, e in m:
            if a.kind == 'inv':
                ia = a.args[0]
            elif a.kind == 'sqrt' and is_const(a.args[0]) is not None:
                ia = scale(of_atom(a), 1 / is_const(a.args[0]))
            else:
                ia = of_atom(mk('inv', 'R', to_real(of_atom(a))))
            r = mul(r, ipow(ia, e))
        return r
    c, q = monic(p)
    return scale(of_atom(mk('inv', 'R', q)), 1 / c)


def div(a, b):
    c = is_const(b)
    a = to_real(a)
    if c is not None and c != 0:
        return scale(a, 1 / c)
    return mul(a, inv(b))


def isqrt_exact(q):
    from math import isqrt
    n, d = q.numerator, q.denominator
    if n < 0:
        return None
    a, b = isqrt(n), isqrt(d)
    if a * a == n and b * b == d:
        return Fraction(a, b)
    return None


def sqrt(p):
    p = to_real(p)
    c = is_const(p)
    if c is not None:
        e = isqrt_exact(c)
        if e is not None:
            return const(e, 'R')
        if c > 0 and c.denominator != 1:
            # sqrt(a/b) = sqrt(a*b)/b
            return scale(sqrt(const(c.numerator * c.denominator, 'R')), Fraction(1, c.denominator))
    return of_atom(mk('sqrt', 'R', p))


def ediv(a, b):
    """Euclidean/floor division for b>0."""
    ca, cb = is_const(a), is_const(b)
    if cb == 1:
        return a
    if ca is not None and cb is not None and cb > 0:
        return I(ca.numerator // cb.numerator)
    if cb is not None and cb > 0:
        # pull out multiples of b
        q, r = {}, {}
        for m, c in a.args:
            k = c // cb
            if k:
                q[m] = k
            if c - k * cb:
                r[m] = c - k * cb
        q, r = poly(q, 'I'), poly(r, 'I')
        if is_const(r) is not None and 0 <= is_const(r) < cb:
            return q
        return add(q, of_atom(mk('ediv', 'I', r, b)))
    ba = single_atom(b)
    if ba is not None:
        q, r = {}, {}
        for m, c in a.args:
            dm = dict(m)
            if ba in dm:
                dm[ba] -= 1
                if not dm[ba]:
                    del dm[ba]
                q[tuple(sorted(dm.items(), key=lambda ae: ae[0].id))] = c
            else:
                r[m] = c
        q, r = poly(q, 'I'), poly(r, 'I')
        if is_const(r) == 0:
            return q
        return add(q, of_atom(mk('ediv', 'I', r, b)))
    return of_atom(mk('ediv', 'I', a, b))


def emod(a, b):
    return a - b * ediv(a, b)


def var(name, sort):
    a = mk('var', sort, name)
    return of_atom(a) if sort in ('I', 'R') else a


_fresh = {}


def fresh(name, sort):
    n = _fresh.get(name, 0)
    _fresh[name] = n + 1
    return var("%s!%d" % (name, n), sort)


def reset_fresh():
    _fresh.clear()


def uf(name, sort, *args):
    a = mk('uf', sort, name, *args)
    return of_atom(a) if sort in ('I', 'R') else a


def power(b, t):
    """b^t, integer t."""
    c = is_const(t)
    if c is not None and c >= 0:
        return ipow(b, int(c))
    d = dict(t.args)
    k = d.pop((), Fraction(0))
    base = poly(d, 'I')
    if k > 0:
        return mul(of_atom(mk('pow', 'R', b, base)), ipow(b, int(k)))
    return of_atom(mk('pow', 'R', b, t))


# ---------------------------------------------------------------- booleans
TRUE = mk('true', 'B')
FALSE = mk('false', 'B')


def content(p):
    from math import gcd
    num, den = 0, 1
    for m, c in p.args:
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    return Fraction(num, den) if num else Fraction(1)


def flag_cmp(p, f):
    """comparison of a status flag, ite(c, k1, k2) with constants, as a condition on c"""
    if p.sort != 'I' or len(p.args) > 2:
        return None
    a = None
    for m, k in p.args:
        if m:
            if a is not None or len(m) != 1 or m[0][1] != 1 or m[0][0].kind != 'ite':
                return None
            a, co = m[0][0], k
    if a is None or not flag(a):
        return None
    rest = dict(p.args).get((), Fraction(0))
    c, u, v = a.args
    x, y = (f(add(scale(w, co), const(rest, 'I'))) for w in (u, v))
    return or_(and_(c, x), and_(not_(c), y)) if x is not y else x


def flag(a):
    for w in a.args[1:]:
        if is_const(w) is None:
            b = single_atom(w)
            if b is None or b.kind != 'ite' or not flag(b):
                return False
    return True


def le0(p):
    c = is_const(p)
    if c is not None:
        return TRUE if c <= 0 else FALSE
    b = flag_cmp(p, le0)
    if b is not None:
        return b
    p = scale(p, 1 / content(p))
    if p.sort == 'I' and all(e for m, _ in p.args for _, e in m):
        # tighten constants: p = g*q + c
        d = dict(p.args)
        k = d.pop((), Fraction(0))
        if k and d:
            q = poly(d, 'I')
            g = content(q)
            if g > 1:
                # g*q' + k <= 0  <=> q' <= floor(-k/g)
                b = (-k / g)
                b = Fraction(b.numerator // b.denominator)
                p = add(scale(q, 1 / g), const(-b, 'I'))
    return mk('le0', 'B', p)


def lt0(p):
    if p.sort == 'I':
        return le0(p + I(1))
    c = is_const(p)
    if c is not None:
        return TRUE if c < 0 else FALSE
    p = scale(p, 1 / content(p))
    return mk('lt0', 'B', p)


def eq0(p):
    c = is_const(p)
    if c is not None:
        return TRUE if c == 0 else FALSE
    b = flag_cmp(p, eq0)
    if b is not None:
        return b
    k = content(p)
    if p.args[-1][1] < 0:
        k = -k
    p = scale(p, 1 / k)
    if p.sort == 'I':
        d = dict(p.args)
        kk = d.pop((), Fraction(0))
        g = content(poly(d, 'I'))
        if (kk / g).denominator != 1:
            return FALSE
    return mk('eq0', 'B', p)


def le(a, b): return le0(a - b)
def lt(a, b): return lt0(a - b)
def ge(a, b): return le0(b - a)
def gt(a, b): return lt0(b - a)


def eq(a, b):
    if a.sort == 'B':
        return iff(a, b)
    return eq0(a - b)


def ne(a, b): return not_(eq(a, b))


def not_(b):
    k = b.kind
    if k == 'true':
        return FALSE
    if k == 'false':
        return TRUE
    if k == 'not':
        return b.args[0]
    if k == 'le0':
        return lt0(neg(b.args[0]))
    if k == 'lt0':
        return le0(neg(b.args[0]))
    return mk('not', 'B', b)


def and_(*bs):
    out = []
    seen = set()

    def go(b):
        if b is TRUE or b in seen:
            return True
        if b is FALSE:
            return False
        if b.kind == 'and':
            return all(go(x) for x in b.args)
        if not_(b) in seen:
            return False
        seen.add(b)
        out.append(b)
        return True
    for b in bs:
        if isinstance(b, (list, tuple)):
            b = and_(*b)
        if not go(b):
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', 'B', *sorted(out, key=lambda t: t.id))


def or_(*bs):
    return not_and([not_(b) for b in bs])


def not_and(bs):
    # or of negations, keep as 'or'
    out = []
    seen = set()
    for nb in bs:
        b = not_(nb)
        if b is FALSE or b in seen:
            continue
        if b is TRUE or not_(b) in seen:
            return TRUE
        if b.kind == 'or':
            for x in b.args:
                if x in seen:
                    continue
                if not_(x) in seen:
                    return TRUE
                seen.add(x)
                out.append(x)
            continue
        seen.add(b)
        out.append(b)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', 'B', *sorted(out, key=lambda t: t.id))


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    if a is not_(b):
        return FALSE
    return mk('iff', 'B', *sorted((a, b), key=lambda t: t.id))


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.sort == 'B' or b.sort == 'B':
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        return and_(implies(c, a), or_(c, b))
    s = jsort(a, b)
    if s == 'R':
        a, b = to_real(a), to_real(b)
        if a is b:
            return a
    if c.kind == 'not':
        c, a, b = c.args[0], b, a
    # ite(c, a, b) inside same condition
    a = assume_in(a, c, True)
    b = assume_in(b, c, False)
    if a is b:
        return a
    # canonical polarity for comparisons: prefer le0 over lt0
    if c.kind == 'lt0':
        c, a, b = not_(c), b, a
    # canonical minimum / maximum
    if c.kind == "le0":
        mn = mx = False
        if c is le(a, b) or (s == 'I' and c is lt(a, b)):
            mn = True
        elif c is le(b, a) or (s == 'I' and c is lt(b, a)):
            mx = True
        if mn or mx:
            x, y = (a, b) if a.id < b.id else (b, a)
            if is_const(x) is not None:
                x, y = y, x
            return of_atom(mk('ite', s, le(x, y) if mn else le(y, x), x, y))
    # nested ites sharing a branch: ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
    ib = single_atom(b)
    if ib is not None and ib.kind == 'ite':
        if ib.args[1] is a:
            return ite(or_(c, ib.args[0]), a, ib.args[2])
        if ib.args[2] is a:
            return ite(or_(c, not_(ib.args[0])), a, ib.args[1])
    return of_atom(mk('ite', s, c, a, b))


def assume_in(t, c, val):
    """cheap: if t is directly an ite atom with the same condition, take the branch"""
    a = single_atom(t)
    if a is not None and a.kind == 'ite':
        if a.args[0] is c:
            return a.args[1] if val else a.args[2]
        if a.args[0] is not_(c):
            return a.args[2] if val else a.args[1]
    return t


def tmin(a, b): return ite(lt(a, b), a, b)
def tmax(a, b): return ite(gt(a, b), a, b)
def tabs(a): return ite(ge(a, lift(0, a.sort)), a, neg(a))


# ---------------------------------------------------------------- vectors, binders
def bv(level):
    return of_atom(mk('bv', 'I', level))


def children(t):
    k = t.kind
    if k == 'poly':
        for m, c in t.args:
            for a, e in m:
                yield a
    elif k in ('var', 'bv', 'true', 'false', 'vatom'):
        return
    else:
        for a in t.args:
            if isinstance(a, Term):
                yield a
            elif isinstance(a, tuple):
                for x in a:
                    if isinstance(x, Term):
                        yield x


_BINDERS = {'sum', 'maxr', 'minr', 'vlam', 'forallr'}


def bvs(t):
    """set of bound-variable levels occurring free in t"""
    if t._bvs is not None:
        return t._bvs
    # iterative post-order
    stack = [t]
    while stack:
        x = stack[-1]
        if x._bvs is not None:
            stack.pop()
            continue
        todo = [c for c in children(x) if c._bvs is None]
        if todo:
            stack.extend(todo)
            continue
        s = frozenset()
        if x.kind == 'bv':
            s = frozenset((x.args[0],))
        else:
            for c in children(x):
                if c._bvs:
                    s = s | c._bvs
            if x.kind in _BINDERS:
                s = s - {x.args[0]}
        x._bvs = s
        stack.pop()
    return t._bvs


def max_level(t):
    """max binder level used anywhere inside t (bound or free)"""
    m = 0
    for a in subterms(t):
        if a.kind == 'bv' or a.kind in _BINDERS:
            m = max(m, a.args[0])
    return m


_sub_cache = {}


def subterms(t):
    """all distinct subterms"""
    r = _sub_cache.get(t)
    if r is not None:
        return r
    seen = set()
    out = []
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        out.append(x)
        stack.extend(children(x))
    out = tuple(out)
    if len(_sub_cache) < 200000:
        _sub_cache[t] = out
    return out


def contains(t, a):
    """atom/var a (Term non-poly) occurs in t"""
    return a in subterms_set(t)


_ss = {}


def subterms_set(t):
    r = _ss.get(t)
    if r is None:
        r = frozenset(subterms(t))
        if len(_ss) < 50000:
            _ss[t] = r
    return r


def atom_of(p):
    """the atom of a variable-like numeric term"""
    a = single_atom(p) if p.kind == 'poly' else p
    assert a is not None, p
    return a


def vatom(name, esort='R'):
    return mk('vatom', 'V:' + esort, name)


def fresh_vec(name, esort='R'):
    n = _fresh.get(name, 0)
    _fresh[name] = n + 1
    return vatom("%s!%d" % (name, n), esort)


def esort(v):
    return v.sort[2:]


def app(v, k):
    if v.kind == 'vlam':
        return subst(v.args[1], {mk('bv', 'I', v.args[0]): k})
    h = UNFOLD.get(v.args[0]) if v.kind == 'vop' else None
    if h is not None:
        r = h(v, k)
        if r is not None:
            return r
    return of_atom(mk('app', esort(v), v, k))


UNFOLD = {}      # vop name -> function(v, k) -> term or None (definitional unfolding)
LINEAR = {}      # vop name -> True: linear in its single vector argument
REWRITE = []     # functions vop-term -> vector or None


def vlam(f, esort_='R'):
    """vector lambda from python function on index term."""
    tmp = fresh('$k', 'I')
    body = f(tmp)
    return vlam_body(body, tmp)


def vlam_body(body, tmp):
    ta = atom_of(tmp)
    es = body.sort
    # eta: app(v, k)
    a = single_atom(body)
    if a is not None and a.kind == 'app' and a.args[1] is tmp and not contains(a.args[0], ta):
        return a.args[0]
    lev = max_level(body) + 1
    b = subst(body, {ta: bv(lev)})
    return mk('vlam', 'V:' + es, lev, b)


def lin_decomp(v):
    """[(coef term, vec)] if v is a linear combination of non-lambda vectors; else None"""
    if v.kind != 'vlam':
        return [(R(1), v)]
    lev, body = v.args
    b = mk('bv', 'I', lev)
    bk = of_atom(b)
    out = []
    for m, c in body.args:
        vec = None
        rest = []
        for a, e in m:
            if lev in bvs(a):
                if vec is not None or e != 1 or a.kind != 'app' or a.args[1] is not bk or lev in bvs(a.args[0]):
                    return None
                vec = a.args[0]
            else:
                rest.append((a, e))
        if vec is None:
            return None
        out.append((mk('poly', 'R', (tuple(rest), c)), vec))
    return out


def vop(name, sargs, vargs, es='R'):
    if LINEAR.get(name) and len(vargs) == 1:
        dec = lin_decomp(vargs[0])
        if dec is not None and not (len(dec) == 1 and is_const(dec[0][0]) == 1):
            return vlam(lambda k: sum_terms([mul(c, app(vop(name, sargs, (v,), es), k)) for c, v in dec]))
    t = mk('vop', 'V:' + es, name, tuple(sargs), tuple(vargs))
    for rw in REWRITE:
        r = rw(t)
        if r is not None:
            return r
    return t


def sum_terms(ts, sort='R'):
    r = const(0, sort)
    for t in ts:
        r = add(r, t)
    return r


def vlin(*cv):
    """linear combination of vectors: vlin((c,v),...)"""
    cv = [(lift(c), v) for c, v in cv]
    return vlam(lambda k: sum_terms([mul(c, app(v, k)) for c, v in cv]))


def vconst(q):
    return vlam(lambda k: lift(q))


def sum_(lo, hi, f):
    """sum_{lo<=k<hi} f(k), normalised to a 0-based range, split over monomials."""
    lo, hi = lift(lo, 'I'), lift(hi, 'I')
    tmp = fresh('$s', 'I')
    body = to_real(f(tmp + lo))
    return sum_body(hi - lo, body, atom_of(tmp))


def sum_body(n, body, tmpa):
    cn = is_const(n)
    if cn is not None and cn <= 0:
        return R(0)
    if cn is not None and cn <= 4:
        return sum_terms([subst(body, {tmpa: I(j)}) for j in range(int(cn))])
    res = R(0)
    for m, c in body.args:
        inner, outer = [], []
        for a, e in m:
            (inner if tmpa in subterms_set(a) else outer).append((a, e))
        om = mk('poly', 'R', (tuple(outer), c))
        if not inner:
            res = res + mul(om, to_real(n))
            continue
        ib = mk('poly', 'R', (tuple(inner), Fraction(1)))
        lev = max_level(ib) + 1
        ib = subst(ib, {tmpa: bv(lev)})
        if ib.kind == 'poly' and len(ib.args) == 1 and ib.args[0][1] == 1:
            res = res + mul(om, of_atom(mk('sum', 'R', lev, n, ib)))
        else:
            # substitution changed the shape: redo
            res = res + mul(om, sum_(I(0), n, lambda k, ib=ib, lev=lev: subst(ib, {mk('bv', 'I', lev): k})))
    return res


def range_ext(kind, lo, hi, init, f):
    """max/min of init and f(k), lo<=k<hi"""
    lo, hi = lift(lo, 'I'), lift(hi, 'I')
    tmp = fresh('$m', 'I')
    body = f(tmp + lo)
    lev = max_level(body) + 1
    b = subst(body, {atom_of(tmp): bv(lev)})
    return of_atom(mk(kind, body.sort, lev, hi - lo, b, init))


def dot(u, v, n):
    return sum_(I(0), n, lambda k: mul(app(u, k), app(v, k)))


# ---------------------------------------------------------------- substitution
def subst(t, mp):
    """mp: atom Term -> replacement (numeric Term for numeric atoms, vec Term for vatoms, bool)."""
    if not mp:
        return t
    keys = set(mp)
    memo = {}

    def touches(x):
        return not keys.isdisjoint(subterms_set(x))

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x in mp:
            r = mp[x]
        elif not touches(x):
            r = x
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def rebuild(x, go):
    k = x.kind
    if k == 'poly':
        res = {}
        srt = x.sort
        acc = const(0, srt)
        for m, c in x.args:
            cur = const(c, srt)
            for a, e in m:
                g = go(a)
                if g.kind != 'poly':
                    g = of_atom(g)
                cur = mul(cur, ipow(g, e))
            acc = add(acc, cur)
        if srt == 'R':
            acc = to_real(acc)
        return acc
    if k == 'inv':
        return inv(go(x.args[0]))
    if k == 'sqrt':
        return sqrt(go(x.args[0]))
    if k == 'ediv':
        return ediv(go(x.args[0]), go(x.args[1]))
    if k == 'pow':
        return power(go(x.args[0]), go(x.args[1]))
    if k == 'ite':
        return ite(go(x.args[0]), go(x.args[1]), go(x.args[2]))
    if k == 'app':
        return app(go(x.args[0]), go(x.args[1]))
    if k == 'uf':
        return uf(x.args[0], x.sort, *[go(a) if isinstance(a, Term) else a for a in x.args[1:]])
    if k == 'vop':
        return vop(x.args[0], [go(a) for a in x.args[1]], [go(a) for a in x.args[2]], esort(x))
    if k in ('vlam', 'sum', 'maxr', 'minr', 'forallr'):
        lev = x.args[0]
        b = mk('bv', 'I', lev)
        tmp = fresh('$b', 'I')
        if k == 'vlam':
            body = go(subst(x.args[1], {b: tmp}))
            return vlam_body(body, tmp)
        if k == 'sum':
            body = go(subst(x.args[2], {b: tmp}))
            return sum_body(go(x.args[1]), to_real(body), atom_of(tmp))
        if k == 'forallr':
            body = go(subst(x.args[2], {b: tmp}))
            return forall_range(go(x.args[1]), body, tmp)
        body = go(subst(x.args[2], {b: tmp}))
        l2 = max_level(body) + 1
        return of_atom(mk(k, x.sort, l2, go(x.args[1]), subst(body, {atom_of(tmp): bv(l2)}), go(x.args[3])))
    if k == 'not':
        return not_(go(x.args[0]))
    if k == 'and':
        return and_(*[go(a) for a in x.args])
    if k == 'or':
        return or_(*[go(a) for a in x.args])
    if k == 'iff':
        return iff(go(x.args[0]), go(x.args[1]))
    if k == 'le0':
        return le0(go(x.args[0]))
    if k == 'lt0':
        return lt0(go(x.args[0]))
    if k == 'eq0':
        return eq0(go(x.args[0]))
    raise NotImplementedError(k)


def forall_range(n, body, tmp):
    """Bool term: for all 0<=tmp<n: body.  Usable as hypothesis (instantiated) or goal (skolemised)."""
    if body is TRUE:
        return TRUE
    lev = max_level(body) + 1
    b = subst(body, {atom_of(tmp): bv(lev)})
    return mk('forallr', 'B', lev, n, b)


def forall(n, f):
    tmp = fresh('$q', 'I')
    return forall_range(lift(n, 'I'), f(tmp), tmp)


def instantiate(fr, k):
    """instance of a forallr at index k (guarded)."""
    lev, n, body = fr.args
    return implies(and_(ge(k, I(0)), lt(k, n)), subst(body, {mk('bv', 'I', lev): k}))


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if depth > 12:
        return '...'
    k = t.kind
    s = lambda x: show(x, depth + 1) if isinstance(x, Term) else str(x)
    if k == 'poly':
        if not t.args:
            return '0'
        parts = []
        for m, c in t.args:
            ms = '*'.join(s(a) + ('^%d' % e if e != 1 else '') for a, e in m)
            if not m:
                parts.append(str(c))
            elif c == 1:
                parts.append(ms)
            elif c == -1:
                parts.append('-' + ms)
            else:
                parts.append('%s*%s' % (c, ms))
        return '(' + ' + '.join(parts) + ')' if len(parts) > 1 else parts[0]
    if k in ('var', 'vatom'):
        return str(t.args[0])
    if k == 'bv':
        return '_%d' % t.args[0]
    if k == 'app':
        return '%s[%s]' % (s(t.args[0]), s(t.args[1]))
    if k == 'vop':
        return '%s(%s)' % (t.args[0], ','.join([s(a) for a in t.args[1]] + [s(a) for a in t.args[2]]))
    if k == 'le0':
        return '%s<=0' % s(t.args[0])
    if k == 'lt0':
        return '%s<0' % s(t.args[0])
    if k == 'eq0':
        return '%s==0' % s(t.args[0])
    if k == 'vlam':
        return '(\\_%d. %s)' % (t.args[0], s(t.args[1]))
    if k == 'ite':
        return 'ite(%s, %s, %s)' % tuple(s(a) for a in t.args)
    return '%s(%s)' % (k, ', '.join(s(a) for a in t.args))
