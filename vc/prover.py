"""Discharges  hyps |- goal  over terms.py terms.  Result: Res(status, model, reason).

status: 'valid' | 'invalid' (a model of hyps & not goal was found) | 'unknown'
All facts added below are valid for the intended interpretation (lemma schemas), never assumptions
about the program.
"""
import time
import z3
from terms import *
import terms as T

STATS = dict(queries=0, z3_time=0.0, cache=0, syntactic=0, z3=0, cvc5=0)
DOMLEN = {}   # vop name -> function(sargs) -> [len per vector arg]


class Res:
    __slots__ = ('status', 'model', 'reason')

    def __init__(self, status, model=None, reason=''):
        self.status, self.model, self.reason = status, model, reason

    def __bool__(self):
        return self.status == 'valid'

    def __repr__(self):
        return 'Res(%s,%s)' % (self.status, self.reason)


VALID = Res('valid')


# ------------------------------------------------------------------ translation
class Trans:
    def __init__(self, nonlinear):
        self.nonlinear = nonlinear
        self.memo = {}
        self.vars = {}

    def v(self, name, sort):
        x = self.vars.get(name)
        if x is None:
            x = {'I': z3.Int, 'R': z3.Real, 'B': z3.Bool}[sort](name)
            self.vars[name] = x
        return x

    def atom(self, a):
        r = self.memo.get(a)
        if r is not None:
            return r
        k = a.kind
        if k == 'var':
            r = self.v('v_%s' % a.args[0], a.sort)
        elif k == 'bv':
            r = self.v('bv_%d' % a.args[0], 'I')
        elif k == 'app':
            f = z3.Function('f_%d' % a.args[0].id, z3.IntSort(), z3.IntSort() if a.sort == 'I' else z3.RealSort())
            r = f(self.num(a.args[1], 'I'))
        elif k == 'uf':
            args = []
            nm = 'u_%s' % a.args[0]
            doms = []
            for x in a.args[1:]:
                if isinstance(x, Term) and x.sort in ('I', 'R', 'B'):
                    args.append(self.num(x, x.sort) if x.sort != 'B' else self.b(x))
                    doms.append({'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}[x.sort])
                else:
                    nm += '_%s' % (x.id if isinstance(x, Term) else x)
            rng = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}[a.sort]
            nm += '_' + ''.join(str(d)[0] for d in doms)
            r = z3.Function(nm, *doms, rng)(*args) if args else self.v(nm, a.sort)
        elif k == 'ite':
            r = z3.If(self.b(a.args[0]), self.num(a.args[1], a.sort), self.num(a.args[2], a.sort))
        else:
            r = self.v('t_%d' % a.id, a.sort)
        self.memo[a] = r
        return r

    def num(self, p, sort):
        key = (p, sort)
        r = self.memo.get(key)
        if r is not None:
            return r
        real = sort == 'R'
        parts = []
        for m, c in p.args:
            fs = []
            deg = sum(e for _, e in m)
            if deg > 1 and not self.nonlinear:
                nm = 'm_' + '_'.join('%d^%d' % (a.id, e) for a, e in m)
                isint = all(a.sort == 'I' for a, _ in m)
                x = self.v(nm, 'I' if isint else 'R')
                fs.append(z3.ToReal(x) if real and isint else x)
            else:
                for a, e in m:
                    x = self.atom(a)
                    if a.sort == 'I' and real:
                        x = z3.ToReal(x)
                    fs += [x] * e
            if real:
                cc = z3.RealVal(str(c))
            else:
                assert c.denominator == 1, p
                cc = z3.IntVal(c.numerator)
            if not fs:
                parts.append(cc)
            else:
                x = fs[0]
                for f in fs[1:]:
                    x = x * f
                parts.append(x if c == 1 else cc * x)
        if not parts:
            r = z3.RealVal(0) if real else z3.IntVal(0)
        else:
            r = z3.Sum(parts) if len(parts) > 1 else parts[0]
        self.memo[key] = r
        return r

    def b(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        k = t.kind
        if k == 'true':
            r = z3.BoolVal(True)
        elif k == 'false':
            r = z3.BoolVal(False)
        elif k == 'not':
            r = z3.Not(self.b(t.args[0]))
        elif k == 'and':
            r = z3.And([self.b(x) for x in t.args])
        elif k == 'or':
            r = z3.Or([self.b(x) for x in t.args])
        elif k == 'iff':
            r = self.b(t.args[0]) == self.b(t.args[1])
        elif k in ('le0', 'lt0', 'eq0'):
            p = t.args[0]
            # all-integer polynomial even if sorted R
            s = p.sort
            e = self.num(p, s)
            z = z3.IntVal(0) if s == 'I' else z3.RealVal(0)
            r = e <= z if k == 'le0' else e < z if k == 'lt0' else e == z
        elif k == 'forallr':
            r = self.v('q_%d' % t.id, 'B')
        elif k in ('var', 'uf'):
            r = self.atom(t)
        else:
            raise NotImplementedError(k)
        self.memo[t] = r
        return r


# ------------------------------------------------------------------ lemma facts
def collect(ts):
    seen = set()
    for t in ts:
        seen.update(subterms(t))
    return seen


def closed(t):
    return not bvs(t)


_atomfacts = {}


def atom_facts(a):
    r = _atomfacts.get(a)
    if r is not None:
        return r
    k = a.kind
    out = []
    t = of_atom(a) if a.sort in ('I', 'R') else None
    if k == 'ediv':
        x, b = a.args
        q = t
        out.append(implies(gt(b, I(0)), and_(le(b * q, x), lt(x, b * q + b))))
    elif k == 'inv':
        p = a.args[0]
        out.append(or_(eq0(p), eq0(p * t - R(1))))
        out.append(implies(gt(p, R(0)), gt(t, R(0))))
        out.append(implies(lt(p, R(0)), lt(t, R(0))))
    elif k == 'sqrt':
        p = a.args[0]
        out.append(implies(ge(p, R(0)), and_(ge(t, R(0)), eq0(t * t - p))))
        out.append(implies(gt(p, R(0)), gt(t, R(0))))
    elif k in ('maxr', 'minr'):
        lev, n, body, init = a.args
        w = var('wit_%d' % a.id, 'I')
        bw = subst(body, {mk('bv', 'I', lev): w})
        c = ge if k == 'maxr' else le
        out.append(c(t, init))
        out.append(or_(eq(t, init), and_(ge(w, I(0)), lt(w, n), eq(t, bw))))
        b0 = subst(body, {mk('bv', 'I', lev): I(0)})
        out.append(or_(le(n, I(0)), c(t, b0)))
    elif k == 'pow':
        b, e = a.args
        out.append(implies(eq(e, I(0)), eq(t, R(1))))
        out.append(implies(and_(gt(b, R(0))), gt(t, R(0))))
    elif k == 'sum':
        lev, n, body = a.args
        out.append(implies(le(n, I(0)), eq(t, R(0))))
        if len(body.args) == 1 and all(e % 2 == 0 for _, e in body.args[0][0]) and body.args[0][1] > 0:
            out.append(ge(t, R(0)))
        elif nonneg_body(body):
            out.append(ge(t, R(0)))
    r = [f for f in out if f is not TRUE]
    _atomfacts[a] = r
    return r


def nonneg_body(b):
    a = single_atom(b)
    if a is not None and a.kind == 'ite':
        # |x| pattern
        c, x, y = a.args
        return x is neg(y)
    return False


def match_index(pat, k, lev):
    """solve pat(bv lev) == k for the bound variable; pat linear with coef +-1"""
    d = dict(pat.args)
    b = mk('bv', 'I', lev)
    c = d.pop(((b, 1),), None)
    if c not in (1, -1):
        return None
    rest = poly(d, 'I')
    if lev in bvs(rest):
        return None
    return (k - rest) if c == 1 else (rest - k)


def inst_candidates(fr_body, lev, apps_by_vec, ivars):
    """index candidates for a quantified body"""
    cands = set()
    pats = []
    for s in subterms(fr_body):
        if s.kind == 'app' and lev in bvs(s.args[1]):
            pats.append((s.args[0], s.args[1]))
        elif s.kind in ('uf', 'vop') and lev in bvs(s):
            for i, x in enumerate(s.args[1:] if s.kind == 'uf' else s.args[1]):
                if isinstance(x, Term) and x.sort == 'I' and lev in bvs(x):
                    for k in apps_by_vec.get((s.kind, s.args[0], i), ()):
                        y = match_index(x, k, lev)
                        if y is not None:
                            cands.add(y)
    for v, pat in pats:
        if lev in bvs(v):
            continue
        for k in apps_by_vec.get(v, ()):
            x = match_index(pat, k, lev)
            if x is not None:
                cands.add(x)
            else:
                # app whose pattern is not solvable (e.g. nested): try k itself
                pass
    return cands


def product_lemmas(terms_):
    """monotonicity instances for degree-2 integer monomials sharing a factor"""
    monos = set()
    for t in terms_:
        if t.kind == 'poly':
            for m, c in t.args:
                if len(m) and all(a.sort == 'I' for a, _ in m):
                    deg = sum(e for _, e in m)
                    if deg == 2:
                        monos.add(m)
    byf = {}
    for m in monos:
        fl = []
        for a, e in m:
            fl += [a] * e
        x, y = fl
        byf.setdefault(x, set()).add(y)
        byf.setdefault(y, set()).add(x)
    out = []
    for f, others in byf.items():
        if closed(f) is False:
            continue
        F = of_atom(f)
        lst = [of_atom(o) for o in sorted(others, key=lambda t: t.id) if closed(o)]
        lst = lst[:8]
        pos = ge(F, I(0))
        for u in lst:
            out.append(implies(and_(pos, ge(u, I(0))), ge(u * F, I(0))))
            out.append(implies(and_(pos, ge(u, I(1))), ge(u * F, F)))
            out.append(implies(and_(pos, ge(u, I(2))), ge(u * F, F * 2)))
            out.append(implies(and_(pos, le(u, I(0))), le(u * F, I(0))))
            out.append(implies(and_(pos, le(u, I(-1))), le(u * F, neg(F))))
        for i in range(len(lst)):
            for j in range(len(lst)):
                if i != j:
                    u, v = lst[i], lst[j]
                    out.append(implies(and_(pos, lt(u, v)), le(u * F + F, v * F)))
                    out.append(implies(and_(pos, le(u + I(2), v)), le(u * F + F * 2, v * F)))
                    if i < j:
                        out.append(implies(eq(u, v), eq(u * F, v * F)))
                    # offsets by one relate e.g. u-1 and v
    return out


def sq_lemmas(terms_):
    """x^2>=0 and sign-of-product lemmas for real monomials of degree 2"""
    out = []
    n = 0
    for t in terms_:
        if t.kind != 'poly':
            continue
        for m, c in t.args:
            if len(m) == 1 and m[0][1] == 2 and m[0][0].sort == 'R' and closed(m[0][0]):
                a = of_atom(m[0][0])
                out.append(ge(a * a, R(0)))
    return out


def gather(hyps, goal_neg, rounds=2, extra_idx=()):
    """hyps and instances of quantified hyps and lemma facts relevant to atoms"""
    base = [h for h in hyps if h.kind != 'forallr']
    foralls = [h for h in hyps if h.kind == 'forallr']
    # quantified facts hidden inside implications/disjunctions
    hidden = []
    for h in base + [goal_neg]:
        for s in subterms(h):
            if s.kind == 'forallr' and closed(s) and s not in hidden:
                hidden.append(s)
    asserted = list(base) + [goal_neg]
    for s in hidden:
        # either it holds or there is a counterexample
        w = var('cex_%d' % s.id, 'I')
        asserted.append(or_(s, and_(ge(w, I(0)), lt(w, s.args[1]), not_(subst(s.args[2], {mk('bv', 'I', s.args[0]): w})))))
    have = set(asserted)
    frontier = list(asserted)
    done_inst = set()
    facts_done = set()
    apps_by_vec = {}
    exts = set()
    for rnd in range(rounds + 1):
        atoms = collect(frontier)
        frontier = []
        for s in sorted((a for a in atoms if a.kind == 'app'), key=lambda a: a.id):
            if closed(s):
                apps_by_vec.setdefault(s.args[0], set()).add(s.args[1])
        for s in sorted((a for a in atoms if a.kind in ('uf', 'vop')), key=lambda a: a.id):
            for i, x in enumerate(s.args[1:] if s.kind == 'uf' else s.args[1]):
                if isinstance(x, Term) and x.sort == 'I' and closed(x):
                    apps_by_vec.setdefault((s.kind, s.args[0], i), set()).add(x)
        for a in sorted(atoms, key=lambda a: a.id):
            if a.kind in ('ediv', 'inv', 'sqrt', 'maxr', 'minr', 'pow', 'sum') and a not in facts_done and closed(a):
                facts_done.add(a)
                if a.kind in ('maxr', 'minr'):
                    exts.add(a)
                for f in atom_facts(a):
                    if f not in have:
                        have.add(f)
                        asserted.append(f)
                        frontier.append(f)
            elif a.kind == 'var' and a.sort == 'I' and False:
                pass
        for fr in foralls + hidden + sorted(exts, key=lambda a: a.id):
            lev = fr.args[0]
            body = fr.args[2]
            cands = inst_candidates(body, lev, apps_by_vec, ())
            for k in sorted(cands, key=lambda t: t.id)[:40]:
                if (fr, k) in done_inst or not closed(k):
                    continue
                done_inst.add((fr, k))
                if fr.kind == 'forallr':
                    f = instantiate(fr, k)
                    if fr in hidden and fr not in foralls:
                        f = implies(fr, f)
                else:
                    t = of_atom(fr)
                    bk = subst(body, {mk('bv', 'I', lev): k})
                    c = ge if fr.kind == 'maxr' else le
                    f = implies(and_(ge(k, I(0)), lt(k, fr.args[1])), c(t, bk))
                if f not in have and f is not TRUE:
                    have.add(f)
                    asserted.append(f)
                    frontier.append(f)
        if not frontier:
            break
    allt = collect(asserted)
    for f in product_lemmas(allt) + sq_lemmas(allt):
        if f not in have and f is not TRUE:
            have.add(f)
            asserted.append(f)
    return asserted


# ------------------------------------------------------------------ z3 call
def run_z3(asserted, nonlinear, timeout_ms, want_model=False):
    tr = Trans(nonlinear)
    s = z3.Solver() if not nonlinear else z3.Solver()
    s.set('timeout', timeout_ms)
    s.set('random_seed', 7)
    for a in asserted:
        s.add(tr.b(a))
    t0 = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS['z3_time'] += time.time() - t0
    STATS['z3'] += 1
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        m = None
        if want_model:
            md = s.model()
            m = {}
            for n, x in tr.vars.items():
                if n.startswith('v_'):
                    try:
                        m[n[2:]] = str(md.eval(x, model_completion=True))
                    except z3.Z3Exception:
                        pass
        return 'sat', m
    return 'unknown', None


_cache = {}


def relevant(hyps, goal):
    return hyps


def smt(hyps, goal, level=2):
    """level 0: linear abstraction only, short; 2: full"""
    key = (tuple(hyps), goal)
    c = _cache.get(key)
    if c is not None and (c.status == 'valid' or c.reason == 'L%d' % level):
        STATS['cache'] += 1
        return c
    STATS['queries'] += 1
    ng = not_(goal)
    asserted = gather(hyps, ng)
    r, m = run_z3(asserted, False, 1500 if level == 0 else 6000)
    if r == 'unsat':
        res = VALID
    elif level == 0:
        res = Res('unknown', None, 'L0')
    else:
        r, m = run_z3(asserted, True, 4000 if level == 1 else 10000, want_model=True)
        if r == 'unsat':
            res = VALID
        elif r == 'sat':
            res = Res('invalid', m, 'L%d' % level)
        else:
            res = Res('unknown', None, 'L%d' % level)
    _cache[key] = res
    return res


# ------------------------------------------------------------------ goal-directed simplification
def subst_equalities(hyps, goal):
    """use hyps of the form x = p (x an integer variable) as rewrite rules"""
    hyps = list(hyps)
    for _ in range(8):
        pick = None
        for h in hyps:
            if h.kind == 'eq0' and h.args[0].sort == 'I':
                p = h.args[0]
                for m, c in p.args:
                    if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].kind == 'var':
                        a = m[0][0]
                        rest = p - scale(of_atom(a), c)
                        if a in subterms_set(rest):
                            continue
                        pick = (h, a, neg(rest) if c == 1 else rest)
                        break
                if pick:
                    break
        if not pick:
            break
        h, a, e = pick
        mp = {a: e}
        hyps = [subst(x, mp) for x in hyps if x is not h]
        hyps = [x for x in hyps if x is not TRUE]
        goal = subst(goal, mp)
    return hyps, goal


def find_ites(t):
    """ite atoms of t not under binders (closed), innermost first"""
    out = []
    for s in subterms(t):
        if s.kind == 'ite' and closed(s):
            out.append(s)
    out.sort(key=lambda s: (len(subterms(s.args[0])), s.id))
    return out


def resolve_ite(t, cond, val):
    mp = {}
    nc = not_(cond)
    for s in subterms(t):
        if s.kind == 'ite':
            if s.args[0] is cond:
                mp[s] = s.args[1] if val else s.args[2]
            elif s.args[0] is nc:
                mp[s] = s.args[2] if val else s.args[1]
    return mp


def subst_ites(t, cond, val):
    for _ in range(20):
        mp = resolve_ite(t, cond, val)
        if not mp:
            return t
        t = subst(t, mp)
    return t


MAXSPLIT = 14


class Budget:
    def __init__(self, secs):
        self.end = time.time() + secs

    def out(self):
        return time.time() > self.end


def prove(hyps, goal, budget=60, level=2):
    hyps = flat(hyps)
    return _prove(hyps, goal, Budget(budget), 0, level)


def flat(hyps):
    out = []
    seen = set()
    for h in hyps:
        for x in (h.args if h.kind == 'and' else (h,)):
            if x is not TRUE and x not in seen:
                seen.add(x)
                out.append(x)
    return out


def _prove(hyps, goal, bud, depth, level=2):
    if goal is TRUE or goal in hyps or FALSE in hyps:
        STATS['syntactic'] += 1
        return VALID
    if bud.out():
        return Res('unknown', None, 'time')
    k = goal.kind
    if k == 'and':
        for g in goal.args:
            r = _prove(hyps, g, bud, depth, level)
            if not r:
                return r
        return VALID
    if k == 'forallr':
        i = fresh('sk', 'I')
        lev, n, body = goal.args
        return _prove(flat(hyps + [ge(i, I(0)), lt(i, n)]), subst(body, {mk('bv', 'I', lev): i}), bud, depth, level)
    if k == 'or':
        # choose an equality or forall disjunct as main goal, others negated into hyps
        main = None
        for g in goal.args:
            if g.kind in ('forallr',):
                main = g
                break
            if g.kind == 'eq0' and g.args[0].sort == 'R' and main is None:
                main = g
        if main is not None:
            others = [not_(g) for g in goal.args if g is not main]
            return _prove(flat(hyps + others), main, bud, depth, level)
        for g in goal.args:
            if g.kind == 'and' and any(x.kind in ('eq0', 'forallr') for x in g.args):
                others = [not_(x) for x in goal.args if x is not g]
                r = _prove(flat(hyps + others), g, bud, depth, level)
                if r:
                    return r
    hyps2, goal2 = subst_equalities(hyps, goal)
    hyps2 = flat(hyps2)
    if goal2 is not goal:
        if goal2 is TRUE or FALSE in hyps2:
            return VALID
    goal = goal2
    hyps = hyps2
    if goal.kind in ('eq0', 'le0', 'lt0'):
        hs = set(hyps)
        for it in find_ites(goal):
            c = it.args[0]
            d = True if c in hs else False if not_(c) in hs else None
            if d is not None:
                return _prove(hyps, subst_ites(goal, c, d), bud, depth, level)
        p0 = goal.args[0]
        # ite resolution / splitting, only when it matters (nonlinear use or sums)
        ites = find_ites(p0) if needs_split(p0) else []
        for it in ites:
            c = it.args[0]
            if find_ites(c) and needs_split(p0) and any(x.kind == 'ite' for x in subterms(c) if x is not it):
                continue
            d = decide(hyps, c)
            if d is not None:
                return _prove(hyps, subst_ites(goal, c, d), bud, depth, level)
        if ites and depth < MAXSPLIT:
            c = ites[0].args[0]
            g1 = subst_ites(goal, c, True)
            h1 = flat([subst_ites(h, c, True) for h in hyps] + [c])
            r = _prove(h1, g1, bud, depth + 1, level)
            if not r:
                return r
            g2 = subst_ites(goal, c, False)
            h2 = flat([subst_ites(h, c, False) for h in hyps] + [not_(c)])
            return _prove(h2, g2, bud, depth + 1, level)
        p = simp_poly(hyps, p0, bud, goal.kind == 'eq0')
        if p is not p0:
            goal = {'eq0': eq0, 'le0': le0, 'lt0': lt0}[goal.kind](p)
            if goal is TRUE:
                STATS['syntactic'] += 1
                return VALID
            if find_ites(goal) and needs_split(goal.args[0] if goal.args else goal) and depth < MAXSPLIT:
                return _prove(hyps, goal, bud, depth + 1, level)
    r = smt(hyps, goal, 0)
    if r:
        return r
    if goal.kind == 'le0' and goal.args[0].sort == 'R' and depth < 12 and nonneg_poly(hyps, neg(goal.args[0]), bud, depth):
        return VALID
    if goal.kind == 'eq0' and goal.args[0].sort == 'R' and depth < 12 and zero_poly(hyps, goal.args[0], bud, depth):
        return VALID
    return smt(hyps, goal, level) if level > 0 else r


def zero_poly(hyps, p, bud, depth):
    """p == 0 by recombining sums over one range into a pointwise equation"""
    n, k, body = None, fresh('zk', 'I'), R(0)
    if len(p.args) < 2:
        return False
    for m, c in p.args:
        ss = [(a, e) for a, e in m if a.kind == 'sum']
        if len(ss) != 1 or ss[0][1] != 1:
            return False
        s = ss[0][0]
        if n is None:
            n = s.args[1]
        elif n is not s.args[1]:
            return False
        t = R(c)
        for a, e in m:
            if a is not s:
                t = mul(t, ipow(of_atom(a), e))
        body = body + mul(t, subst(s.args[2], {mk('bv', 'I', s.args[0]): k}))
    return bool(_prove(flat(hyps + [ge(k, I(0)), lt(k, n)]), eq(body, R(0)), bud, depth + 2, 1))


def nonneg_poly(hyps, p, bud, depth):
    """p >= 0 by factoring common factors and recombining sums over one range into a pointwise inequality"""
    if not p.args:
        return True
    common = None
    for m, c in p.args:
        d = dict(m)
        common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d}
    if common and (len(p.args) > 1 or len(common) > 1):
        facs = list(common.items())
        rest = {}
        for m, c in p.args:
            d = dict(m)
            for a, e in facs:
                d[a] -= e
                if not d[a]:
                    del d[a]
            rest[tuple(sorted(d.items(), key=lambda z: z[0].id))] = c
        q = R(0)
        for m, c in rest.items():
            t = R(c)
            for a, e in m:
                t = mul(t, ipow(of_atom(a), e))
            q = q + t
        for a, e in facs:
            if e % 2 == 0:
                continue
            x = a.args[0] if a.kind == 'inv' else of_atom(a)
            if not _prove(hyps, ge(x, R(0)), bud, depth + 2, 1):
                return False
        return bool(_prove(hyps, ge(q, R(0)), bud, depth + 2, 1))
    n = None
    body = R(0)
    k = fresh('nk', 'I')
    for m, c in p.args:
        ss = [(a, e) for a, e in m if a.kind == 'sum']
        if len(ss) != 1 or ss[0][1] != 1:
            return False
        s = ss[0][0]
        if n is None:
            n = s.args[1]
        elif n is not s.args[1]:
            return False
        t = R(c)
        for a, e in m:
            if a is not s:
                t = mul(t, ipow(of_atom(a), e))
        body = body + mul(t, subst(s.args[2], {mk('bv', 'I', s.args[0]): k}))
    if n is None:
        return False
    return bool(_prove(flat(hyps + [ge(k, I(0)), lt(k, n)]), ge(body, R(0)), bud, depth + 2, 1))


def needs_split(p):
    for s in subterms(p):
        if s.kind == 'poly':
            for m, c in s.args:
                if sum(e for _, e in m) > 1 and any(a.kind == 'ite' for a, _ in m):
                    return True
        elif s.kind in ('inv', 'sqrt', 'sum', 'vlam', 'uf', 'vop', 'pow', 'maxr', 'minr', 'ediv'):
            for c in children(s):
                if any(x.kind == 'ite' and closed(x) for x in subterms(c)):
                    return True
        elif s.kind == 'ite' and s.sort == 'R' and closed(s) and any(x.kind in ('sum', 'maxr', 'minr') for c in s.args[1:] for x in subterms(c)):
            return True
    return False


_dec = {}


def decide(hyps, c):
    """True/False/None: quick decision of c under hyps"""
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if c in hyps:
        return True
    if not_(c) in hyps:
        return False
    key = (tuple(hyps), c)
    if key in _dec:
        return _dec[key]
    r = None
    if smt(hyps, c, 0):
        r = True
    elif smt(hyps, not_(c), 0):
        r = False
    _dec[key] = r
    return r


def sums_match(hyps, s1, s2, bud):
    l1, n1, b1 = s1.args
    l2, n2, b2 = s2.args
    if n1 is not n2 and not (smt(hyps, eq(n1, n2), 0)):
        return False
    k = fresh('ck', 'I')
    t1 = subst(b1, {mk('bv', 'I', l1): k})
    t2 = subst(b2, {mk('bv', 'I', l2): k})
    if not shape_compatible(t1, t2):
        return False
    return bool(_prove(flat(hyps + [ge(k, I(0)), lt(k, n1)]), eq(t1, t2), bud, 6, 1))


def base_vecs(t):
    out = set()
    for s in subterms(t):
        if s.kind == 'vatom' or s.kind == 'vop':
            out.add(s)
    return out


def shape_compatible(t1, t2):
    """cheap filter: two sum bodies can only be equal if they mention some common vector or ops"""
    a, b = base_vecs(t1), base_vecs(t2)
    if not a and not b:
        return True
    if a & b:
        return True
    na = {v.args[0] for v in a if v.kind == 'vop'}
    nb = {v.args[0] for v in b if v.kind == 'vop'}
    return bool(na & nb)


def exts_match(hyps, s1, s2, bud):
    if s1.kind != s2.kind:
        return False
    l1, n1, b1, i1 = s1.args
    l2, n2, b2, i2 = s2.args
    if n1 is not n2 and not smt(hyps, eq(n1, n2), 0):
        return False
    if i1 is not i2 and not smt(hyps, eq(i1, i2), 0):
        return False
    k = fresh('ck', 'I')
    return bool(_prove(flat(hyps + [ge(k, I(0)), lt(k, n1)]),
                       eq(subst(b1, {mk('bv', 'I', l1): k}), subst(b2, {mk('bv', 'I', l2): k})), bud, 6, 1))


def vecs_match(hyps, v1, v2, n, bud):
    if v1 is v2:
        return True
    k = fresh('ck', 'I')
    h = hyps + ([ge(k, I(0)), lt(k, n)] if n is not None else [ge(k, I(0))])
    return bool(_prove(flat(h), eq(app(v1, k), app(v2, k)), bud, 6, 1))


def vops_match(hyps, a, b, bud):
    if a.args[0] != b.args[0] or len(a.args[1]) != len(b.args[1]) or len(a.args[2]) != len(b.args[2]):
        return False
    for x, y in zip(a.args[1], b.args[1]):
        if x is not y and not smt(hyps, eq(x, y), 0):
            return False
    dl = DOMLEN.get(a.args[0])
    lens = dl(a.args[1]) if dl else [None] * len(a.args[2])
    for x, y, n in zip(a.args[2], b.args[2], lens):
        if x is not y and not vecs_match(hyps, x, y, n, bud):
            return False
    return True


def simp_poly(hyps, p, bud, iseq):
    # congruence for vops, sums, ext
    for _ in range(6):
        changed = False
        subs = subterms(p)
        vops = sorted({s for s in subs if s.kind == 'vop' and closed(s)}, key=lambda s: s.id)
        for i in range(len(vops)):
            for j in range(i):
                if vops[i].args[0] == vops[j].args[0] and vops_match(hyps, vops[i], vops[j], bud):
                    p = subst(p, {vops[i]: vops[j]})
                    changed = True
                    break
            if changed:
                break
        if changed:
            continue
        sums = sorted({s for s in subs if s.kind == 'sum' and closed(s)}, key=lambda s: s.id)
        if len(sums) > 1:
            q = merge_sums(hyps, p, sums)
            if q is not None:
                p = q
                continue
        for i in range(len(sums)):
            for j in range(i):
                if sums_match(hyps, sums[i], sums[j], bud):
                    p = subst(p, {sums[i]: of_atom(sums[j])})
                    changed = True
                    break
            if changed:
                break
        if changed:
            continue
        ex = sorted({s for s in subs if s.kind in ('maxr', 'minr') and closed(s)}, key=lambda s: s.id)
        for i in range(len(ex)):
            for j in range(i):
                if exts_match(hyps, ex[i], ex[j], bud):
                    p = subst(p, {ex[i]: of_atom(ex[j])})
                    changed = True
                    break
            if changed:
                break
        if changed:
            continue
        # sqrt / inv with equal arguments
        for kind in ('sqrt', 'inv', 'uf'):
            ss = sorted({s for s in subs if s.kind == kind and closed(s)}, key=lambda s: s.id)
            for i in range(len(ss)):
                for j in range(i):
                    if len(ss[i].args) == len(ss[j].args) and ss[i].sort == ss[j].sort and all(
                            (x is y) or (isinstance(x, Term) and isinstance(y, Term) and x.sort == y.sort and x.sort in ('I', 'R')
                                         and _prove(hyps, eq(x, y), bud, 8, 0))
                            for x, y in zip(ss[i].args, ss[j].args)):
                        p = subst(p, {ss[i]: of_atom(ss[j])})
                        changed = True
                        break
                if changed:
                    break
            if changed:
                break
        if not changed:
            break
    if iseq:
        p = clear_denoms(hyps, p)
    p = reduce_sqrt(hyps, p)
    return p


def lin_atom_coefs(p, kind):
    out = {}
    for m, c in p.args:
        ats = [(a, e) for a, e in m if a.kind == kind]
        if len(ats) == 1 and ats[0][1] == 1:
            rest = tuple(x for x in m if x[0] is not ats[0][0])
            out.setdefault(rest, {})[ats[0][0]] = c
    return out


def sum_affine(s):
    """view a sum's body as g(c*k + r): returns (c, r, key) by looking at index terms; None if mixed"""
    lev, n, body = s.args
    return lev, n, body


def merge_sums(hyps, p, sums):
    """adjacent ranges: sum_{k<a} g(k) + sum_{k<b} g(k+a) = sum_{k<a+b} g(k);
       strided lanes: sum_j sum_{k<q} g(c*k+j), j=0..c-1 = sum_{k<c*q} g(k)"""
    coefs = lin_atom_coefs(p, 'sum')
    for rest, d in coefs.items():
        items = sorted(d.items(), key=lambda x: x[0].id)
        # strided lanes
        for s0, c0 in items:
            lev, n, body = s0.args
            b = mk('bv', 'I', lev)
            cs = set()
            for x in subterms(body):
                if x.kind == 'poly' and x.sort == 'I':
                    dd = dict(x.args)
                    if ((b, 1),) in dd:
                        cs.add(dd[((b, 1),)])
            if len(cs) == 1:
                c = list(cs)[0]
                if c.denominator == 1 and 2 <= c <= 16:
                    c = int(c)
                    # g(y): replace k by y/c is not polynomial; test by shifting instead
                    lanes = [s0]
                    ok = True
                    for j in range(1, c):
                        want = shift_body(body, b, c, j)
                        if want is None:
                            ok = False
                            break
                        t = sum_(I(0), n, lambda k, w=want: subst(w, {b: k}))
                        a = single_atom(t)
                        if a is None or d.get(a) != c0:
                            ok = False
                            break
                        lanes.append(a)
                    if ok:
                        g = unstride(body, b, c)
                        if g is not None:
                            big = sum_(I(0), n * c, lambda k: subst(g, {b: k}))
                            delta = big - sum_terms([of_atom(a) for a in lanes])
                            return p + mul(mk('poly', 'R', (rest, c0)), delta)
        # adjacency
        for s1, c1 in items:
            l1, n1, b1 = s1.args
            for s2, c2 in items:
                if s2 is s1 or c1 != c2:
                    continue
                l2, n2, b2 = s2.args
                sh = subst(b1, {mk('bv', 'I', l1): bv(l1) + n1}) if l1 not in bvs(n1) else None
                if sh is None:
                    continue
                t = sum_(I(0), n2, lambda k: subst(sh, {mk('bv', 'I', l1): k}))
                if single_atom(t) is s2 and smt(hyps, and_(ge(n1, I(0)), ge(n2, I(0))), 0):
                    big = sum_(I(0), n1 + n2, lambda k: subst(b1, {mk('bv', 'I', l1): k}))
                    return p + mul(mk('poly', 'R', (rest, c1)), big - of_atom(s1) - of_atom(s2))
        # the same summand over ranges whose lengths differ by a few terms
        for s1, c1 in items:
            l1, n1, b1 = s1.args
            for s2, c2 in items:
                if s2 is s1 or c1 != -c2 or s2.args[0] != l1 or s2.args[2] is not b1:
                    continue
                n2 = s2.args[1]
                for k in range(0, 5):
                    if smt(hyps, and_(eq(n1 - n2, I(k)), ge(n2, I(0))), 1):
                        few = sum_terms([subst(b1, {mk('bv', 'I', l1): n2 + I(j)}) for j in range(k)])
                        return p + mul(mk('poly', 'R', (rest, c1)), few - of_atom(s1) + of_atom(s2))
    return None


def shift_body(body, b, c, j):
    """g(c*k) -> g(c*k+j): add j to every index polynomial containing c*k"""
    return map_index(body, b, lambda x: x + I(j))


def unstride(body, b, c):
    def f(x):
        d = dict(x.args)
        cc = d.pop(((b, 1),))
        d[((b, 1),)] = cc / c
        return poly(d, 'I')
    return map_index(body, b, f)


def map_index(body, b, f):
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if b not in subterms_set(x):
            r = x
        elif x.kind == 'poly' and x.sort == 'I':
            if ((b, 1),) in dict(x.args):
                r = f(x)
            else:
                raise ValueError
        elif x.kind == 'bv':
            raise ValueError
        else:
            r = T.rebuild(x, go)
        memo[x] = r
        return r
    try:
        return go(body)
    except (ValueError, NotImplementedError):
        return None


def clear_denoms(hyps, p):
    for _ in range(8):
        invs = sorted({a for m, c in p.args for a, e in m if a.kind == 'inv' and closed(a)},
                      key=lambda a: -len(subterms(a)))
        if not invs:
            return p
        prog = False
        for a in invs:
            q = a.args[0]
            if decide_nz(hyps, q):
                deg = max(dict(m).get(a, 0) for m, c in p.args)
                r = const(0, 'R')
                for m, c in p.args:
                    e = dict(m).get(a, 0)
                    rest = tuple(x for x in m if x[0] is not a)
                    r = r + mul(mk('poly', 'R', (rest, c)), ipow(q, deg - e))
                p = r
                prog = True
                break
        if not prog:
            return p
    return p


def decide_nz(hyps, q):
    return smt(hyps, ne(q, R(0)), 0).status == 'valid' or smt(hyps, ne(q, R(0)), 1).status == 'valid'


def reduce_sqrt(hyps, p):
    for _ in range(6):
        tgt = None
        for m, c in p.args:
            for a, e in m:
                if a.kind == 'sqrt' and e >= 2 and closed(a) and smt(hyps, ge(a.args[0], R(0)), 1):
                    tgt = a
                    break
            if tgt:
                break
        if not tgt:
            return p
        r = const(0, p.sort)
        for m, c in p.args:
            e = dict(m).get(tgt, 0)
            rest = tuple(x for x in m if x[0] is not tgt)
            t = mul(mk('poly', 'R', (rest, c)), ipow(tgt.args[0], e // 2))
            if e % 2:
                t = mul(t, of_atom(tgt))
            r = r + t
        p = r
    return p


def sat(hyps, level=2):
    """is the conjunction satisfiable? 'sat'/'unsat'/'unknown'"""
    r = smt(flat(hyps), FALSE, level)
    return {'valid': 'unsat', 'invalid': 'sat', 'unknown': 'unknown'}[r.status]
