"""Loop contracts by simulation: an algorithmic loop is proved to follow a specified recurrence (init, step, stop, limit).

The roles of the program's variables are found by matching (the recurrence names no program variable except through the
values it must hold), then every iteration is checked: from a head state holding the t-th specified iterate the real body
must reach exactly the (t+1)-st, leave the loop exactly when the specified stop test holds, and the trip limit must be the
specified one.  Nothing is assumed about variables without a role."""
import itertools
import terms as T
from terms import *
import prover as P
from exec import (D, Ptr, FnV, SV, UNDEF, Maybe, Obj, State, Outcome, Unsupported, MergeFail, as_bool, as_d, as_int)
import loops
from loops import Bail, subst_val


class Sim:
    def __init__(self, name, vec, real, init, step, limit, sp=(), vp=(), needarr=None, forms=(), inv=None, lemmas=None):
        """vec: {var: length}; real: [var]; init: {var: term}; step(t, s) -> ({var: term}, stop or None)"""
        self.name, self.vec, self.real, self.init, self.step, self.limit = name, vec, list(real), init, step, limit
        self.sp, self.vp = tuple(sp), tuple(vp)
        self.needarr = needarr if needarr is not None else len(vec)
        self.used = False
        self.busy = False
        self.K = None
        self.forms = tuple(forms)      # closed forms an integer or pointer offset may follow
        self.inv = inv or (lambda t, s: [])          # invariants of the recurrence, proved initially and over one step
        self.lemmas = lemmas or (lambda t, s, nxt: [])   # instances of separately proved lemmas, used in the step

    def sym(self, v, t):
        if v in self.vec:
            return vop('%s.%s' % (self.name, v), (t,) + self.sp, self.vp)
        return uf('%s.%s' % (self.name, v), 'R', t, *(self.sp + self.vp))

    def state(self, t):
        return {v: self.sym(v, t) for v in list(self.vec) + self.real}

    def Kterm(self):
        return uf('%s.K' % self.name, 'I', *(self.sp + self.vp))

    def stop(self, t):
        return self.step(t, self.state(t))[1]

    # ------------------------------------------------------------------
    def try_loop(self, loop, s0):
        if self.used or self.busy:
            return None
        self.busy = True
        try:
            return self.try_loop1(loop, s0)
        finally:
            self.busy = False

    def try_loop1(self, loop, s0):
        eng = loop.eng
        snap = (len(eng.obls), list(eng.taint), len(eng.notes))
        try:
            return self._try(loop, s0)
        except Bail as e:
            eng.notes.append('loop at line %s: simulation by %s given up (%s)' % (loop.line, self.name, e))
        except Unsupported as e:
            eng.notes.append('loop at line %s: simulation by %s given up (%s)' % (loop.line, self.name, e))
        del eng.obls[snap[0]:]
        eng.taint[:] = snap[1]
        self.used = False
        return None

    def _try(self, loop, s0):
        eng = loop.eng
        t = fresh('it', 'I')
        ta = atom_of(t)
        loop.t, loop.ta = t, ta
        eng.st = s0
        mod_c, mod_a, mod_i = loop.modified(s0)
        if len(mod_a) < self.needarr:
            return None
        flags = {}
        resolved = {}
        Tn = None
        for rnd in range(3):
            st = loop.head_state(s0, t, mod_c, mod_a, {}, resolved, Tn)
            for c, v in flags.items():
                st.cells[c] = v
            eng.mute += 1
            try:
                s2, exits = loop.iteration(st)
            finally:
                eng.mute -= 1
            if s2 is None:
                raise Bail('no continuing path')
            n0 = (len(resolved), len(flags), Tn)
            for c, v in mod_c.items():
                if ('c', c) in resolved or c in flags:
                    continue
                x0, N = s0.cells[c], s2.cells.get(c, UNDEF)
                if isinstance(v, Term) and v.sort == 'I' and isinstance(N, Term) and isinstance(x0, Term):
                    d = as_int(N) - v
                    if not any(s.kind in ('var', 'vatom', 'uf') and isinstance(s.args[0], str) and s.args[0].startswith('hv.') for s in subterms(d)) and is_const(d) is not None:
                        resolved[('c', c)] = lambda tt, x0=x0, d=d: as_int(x0) + d * tt
                    elif self.form_of(s0, t, as_int(x0), atom_of(v), as_int(N)) is not None:
                        f = self.form_of(s0, t, as_int(x0), atom_of(v), as_int(N))
                        resolved[('c', c)] = f
                    elif is_const(as_int(x0)) is not None and atom_of(v) in subterms_set(loop.condval):
                        flags[c] = x0
                if isinstance(v, Ptr):
                    if isinstance(N, Ptr) and N.obj is v.obj and is_const(N.off - v.off) is not None:
                        d = N.off - v.off
                        resolved[('c', c)] = lambda tt, x0=x0, d=d: Ptr(x0.obj, x0.off + d * tt, x0.null, x0.path)
                    elif isinstance(N, Ptr) and isinstance(x0, Ptr) and N.obj is v.obj and x0.obj is v.obj and single_atom(v.off) is not None:
                        f = self.form_of(s0, t, x0.off, single_atom(v.off), N.off)
                        if f is not None:
                            resolved[('c', c)] = lambda tt, x0=x0, f=f: Ptr(x0.obj, f(tt), x0.null, x0.path)
            if Tn is None:
                Tn = loop.trip(loop.condval, mod_c, resolved)
            if (len(resolved), len(flags), Tn) == n0:
                break
        if Tn is None:
            raise Bail('no iteration limit')
        # ---- live-in locations
        vals = []
        for c in mod_c:
            if ('c', c) not in resolved:
                vals.append(s2.cells.get(c, UNDEF))
        for a in mod_a:
            vals.append(s2.arrs[a])
        conds = [x for g, x in s2.pc] + [x for o in exits for g, x in o.st.pc]
        occ = set()
        for v in vals:
            for x in terms_of(v):
                occ |= subterms_set(x)
        for x in conds:
            occ |= subterms_set(x)
        cand_v, cand_s = [], []
        for a in mod_a:
            if mod_a[a] in occ or True:
                cand_v.append(('a', a, mod_a[a], s0.arrs[a], s2.arrs[a], mod_a[a] in occ))
        for c in mod_c:
            v = mod_c[c]
            if ('c', c) in resolved or c in flags:
                continue
            if isinstance(v, D):
                cand_s.append(('c', c, atom_of(v.t), s0.cells[c].t, as_d(s2.cells[c]).t if isinstance(s2.cells.get(c), (D, Term)) else None, atom_of(v.t) in occ))
            elif isinstance(v, (Maybe,)) or v is UNDEF:
                continue
            elif isinstance(v, Term) and atom_of(v) in occ:
                raise Bail('unresolved integer %s' % loop.cname(c))
        # ---- role matching
        best = self.match(eng, s0, t, cand_v, cand_s, s2)
        if best is None:
            raise Bail('no assignment of roles')
        live = {(k, x) for k, x, h, i0, n, l in cand_v + cand_s if l}
        roles = best            # var -> (kind, loc)
        inv_roles = {}
        for v, kl in roles.items():
            inv_roles[kl] = v
        for kl in live:
            if kl not in inv_roles and not self.dead(kl, cand_v + cand_s):
                raise Bail('value of %s is carried without a role' % (kl[1].name if kl[0] == 'a' else loop.cname(kl[1])))
        self.used = True
        self.roles = roles
        # ---- init obligations
        eng.st = s0
        for v, (k, x) in roles.items():
            cur = s0.arrs[x] if k == 'a' else s0.cells[x].t
            self.oblg(eng, self.equal(v, cur, self.init[v]), '%s: initial value of %s' % (self.name, v), loop.node)
        for f in self.inv(I(0), self.init):
            self.oblg(eng, f, '%s: invariant holds initially' % self.name, loop.node)
        # ---- head state
        def head(tt, base):
            st = base.copy()
            for c in mod_c:
                if ('c', c) in resolved:
                    st.cells[c] = resolved[('c', c)](tt)
                elif c in flags:
                    st.cells[c] = flags[c]
                elif ('c', c) in inv_roles:
                    st.cells[c] = D(self.sym(inv_roles[('c', c)], tt))
                else:
                    st.cells[c] = fresh_like(loop, mod_c[c], c)
            for a in mod_a:
                if ('a', a) in inv_roles:
                    st.arrs[a] = self.sym(inv_roles[('a', a)], tt)
                else:
                    st.arrs[a] = fresh_vec('c!' + a.name, esort(s0.arrs[a]))
            return st
        st = head(t, s0)
        noexit = None
        sig = self.state(t)
        nxt, stop = self.step(t, sig)
        st.pc = st.pc + (('f', ge(t, I(0))), ('f', lt(t, Tn)))
        pre = self.facts(t) + list(self.inv(t, sig))
        for f in pre:
            st.pc = st.pc + (('f', f),)
        if stop is not None:
            st.pc = st.pc + (('f', forall(t, lambda j: not_(self.stop(j)))),)
        eng.loops_closed += 1
        # limit
        self.oblg(eng, or_(eq(Tn, self.limit), and_(le(Tn, I(0)), le(self.limit, I(0)))), '%s: iteration limit' % self.name, loop.node)
        s2, exits = loop.iteration(st)
        K = self.Kterm()
        if self.inv(t, sig):
            si = s0.copy()
            si.pc = si.pc + tuple(('f', f) for f in [ge(t, I(0)), lt(t, Tn)] + pre + list(self.lemmas(t, sig, nxt)))
            eng.st = si
            for f in self.inv(t + I(1), nxt):
                self.oblg(eng, f, '%s: one step keeps the invariant' % self.name, loop.node)
        res = []
        outs = []
        if s2 is not None:
            if flags:
                c = or_(*[ne(as_int(s2.cells[f]), as_int(flags[f])) for f in flags])
                d = P.decide(P.flat(s2.hyps()), c)
                if d is not False:
                    sx = s2.copy()
                    if d is not True:
                        sx.pc = sx.pc + (('c', c),)
                    eng.st = sx
                    cv = as_bool(eng.ev(loop.cond))
                    self.oblg(eng, not_(cv), '%s: the loop ends when its flag is set' % self.name, loop.node)
                    exits = exits + [Outcome('break', eng.st)]
                    s2 = s2.copy()
                    s2.pc = s2.pc + (('c', not_(c)),)
                    if d is True:
                        s2 = None
        if s2 is not None:
            eng.st = s2.copy()
            for v, (k, x) in roles.items():
                cur = s2.arrs[x] if k == 'a' else as_d(eng.use(s2.cells[x], x[0], loop.node)).t
                if k == 'c' and isinstance(s2.cells[x], D) and s2.cells[x].nan is not FALSE:
                    pass
                self.oblg(eng, self.equal(v, cur, nxt[v]), '%s: one iteration updates %s as specified' % (self.name, v), loop.node)
            if stop is not None:
                self.oblg(eng, not_(stop), '%s: continues only while the stop test fails' % self.name, loop.node)
        for o in exits:
            eng.st = o.st.copy()
            if stop is not None:
                self.oblg(eng, stop, '%s: leaves the loop only when the stop test holds' % self.name, loop.node)
            else:
                self.oblg(eng, FALSE, '%s: no early exit' % self.name, loop.node)
            st1 = o.st
            for v, (k, x) in roles.items():
                cur = st1.arrs[x] if k == 'a' else as_d(st1.cells[x]).t
                self.oblg(eng, self.equal(v, cur, nxt[v]), '%s: on leaving, %s has been updated as specified' % (self.name, v), loop.node)
                if k == 'a':
                    st1.arrs[x] = self.sym(v, K)
                else:
                    st1.cells[x] = D(self.sym(v, K))
            st1.pc = st1.pc + (('f', eq(K, t + I(1))),) + tuple(('f', f) for f in self.inv(K, self.state(K)))
            res.append(Outcome('normal' if o.kind == 'break' else o.kind, st1, o.val))
        # exhaustion
        fin = ite(ge(Tn, I(0)), Tn, I(0)) if eng_decide(eng, s0, ge(Tn, I(0))) is not True else Tn
        sf = head(K, s0)
        for c in mod_c:
            if ('c', c) in resolved:
                sf.cells[c] = resolved[('c', c)](fin)
            elif c in flags:
                pass
            elif ('c', c) not in inv_roles:
                sf.cells[c] = fresh_like(loop, mod_c[c], c)
        ex = fresh('c!exh', 'I')
        sf.pc = sf.pc + (('f', eq(K, fin)),)
        for f in self.facts(K) + list(self.inv(K, self.state(K))):
            sf.pc = sf.pc + (('f', f),)
        if stop is not None:
            sf.pc = sf.pc + (('f', forall(fin, lambda j: not_(self.stop(j)))),)
        sf.pc = sf.pc + (('c', eq(K, fin)),) if False else sf.pc
        if exits:
            # exhaustion and exit are exclusive by the ghost count of performed steps: mark the branch
            b = uf('%s.exhausted' % self.name, 'B', *(self.sp + self.vp))
            sf.pc = sf.pc + (('c', b),)
            for o in res:
                o.st.pc = o.st.pc + (('c', not_(b)),)
        return res + [Outcome('normal', sf)]

    def facts(self, t):
        return []

    def form_of(self, s0, t, x0, hv, N):
        for f in self.forms:
            d = x0 - f(I(0))
            g = lambda tt, f=f, d=d: f(tt) + d
            hy = P.flat(s0.hyps() + [ge(t, I(0))])
            n1 = subst(N, {hv: g(t)})
            if not any(s.kind in ('var', 'uf') and isinstance(s.args[0], str) and s.args[0].startswith('hv.') for s in subterms(n1)) and P.prove(hy, eq(n1, g(t + I(1))), 5, 1):
                return g
        return None

    def dead(self, kl, cands):
        """head value never read: the only occurrence of its head atom is in its own unchanged elements"""
        return False

    def oblg(self, eng, c, what, node):
        n0 = len(eng.obls)
        eng.obl('func', c, what, node)
        if len(eng.obls) > n0 and eng.obls[-1]['status'] != 'valid':
            eng.obls[-1]['taint'].append('the recurrence may be organised differently')

    def equal(self, v, a, b):
        if v in self.vec:
            return TRUE if a is b else forall(self.vec[v], lambda k: eq(app(a, k), app(b, k)))
        return eq(a, b)

    def match(self, eng, s0, t, cand_v, cand_s, s2):
        hy = P.flat(s0.hyps())

        def init_ok(v, i0):
            if i0 is self.init[v]:
                return True
            return bool(P.prove(hy, self.equal(v, i0, self.init[v]), 3, 0))
        cands = {}
        for v in self.vec:
            cands[v] = [c for c in cand_v if init_ok(v, c[3])]
        for v in self.real:
            cands[v] = [c for c in cand_s if c[4] is not None and init_ok(v, c[3])]
        for v in cands:
            if not cands[v]:       # reported by the initial-value obligation
                cands[v] = [c for c in (cand_v if v in self.vec else cand_s) if c[4] is not None]
        vs = sorted(cands, key=lambda v: len(cands[v]))
        if any(not cands[v] for v in vs):
            raise Bail('nothing starts as ' + ', '.join(v for v in vs if not cands[v]))
        sig = self.state(t)
        nxt, stop = self.step(t, sig)
        best, bscore = None, -1
        count = 0

        def rec(i, asg):
            nonlocal best, bscore, count
            if count > 3000 or bscore == len(vs):
                return
            if i == len(vs):
                count += 1
                mp = {}
                for v, c in asg.items():
                    s = sig[v]
                    mp[c[2]] = s
                sc = 0
                for v, c in asg.items():
                    x = subst(c[4], mp)
                    if x is nxt[v]:
                        sc += 1
                if sc > bscore:
                    best, bscore = dict(asg), sc
                return
            v = vs[i]
            for c in cands[v]:
                if any(c is d for d in asg.values()):
                    continue
                asg[v] = c
                rec(i + 1, asg)
                del asg[v]
        rec(0, {})
        if best is None:
            return None
        self.score = (bscore, len(vs))
        return {v: (c[0], c[1]) for v, c in best.items()}


def eng_decide(eng, st, c):
    return P.decide(P.flat(st.hyps()), c)


def fresh_like(loop, v, c):
    nm = 'c!' + loop.cname(c)
    if isinstance(v, D):
        return D(fresh(nm, 'R'), fresh(nm + '.nan', 'B'))
    if isinstance(v, Term):
        return fresh(nm, 'I')
    if isinstance(v, Ptr):
        return Ptr(v.obj, fresh(nm, 'I'), v.null, v.path)
    return v


def terms_of(v):
    if isinstance(v, D):
        return [v.t, v.nan]
    if isinstance(v, Term):
        return [v]
    if isinstance(v, Ptr):
        return [v.off, v.null]
    if isinstance(v, Maybe):
        return [v.cond] + terms_of(v.val)
    if isinstance(v, SV):
        return [x for y in v.f.values() for x in terms_of(y)]
    return []
