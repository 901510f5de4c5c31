"""Loop rule: unbounded closed forms (induction variables, sums, products, extrema, disjoint array updates),
with havoc (sound, but recorded as taint) for whatever has no closed form.  OpenMP race obligations."""
import re
import terms as T
from terms import *
import prover as P
from cfront import pragma_text, ty
from exec import (D, Ptr, FnV, SV, UNDEF, Maybe, Obj, State, Outcome, Unsupported, MergeFail, NULL,
                  merge_states, merge_val, as_bool, as_d, as_int)

INVERSE = {}     # vector term (injective index vector) -> inverse vector term (k -> t)
UNROLL = 12


class Bail(Exception):
    pass


def is_hv(t):
    return any(s.kind in ('var', 'vatom') and isinstance(s.args[0], str) and s.args[0].startswith('hv.') for s in subterms_set(t))


def iterate(op, hv, x0, cnt):
    """cnt-fold application of the operator term op (applied to hv) starting from x0"""
    c = is_const(cnt)
    if c is not None and c <= 1:
        return x0 if c <= 0 else subst(op, {hv: x0})
    pos = op.args[2].index(hv)
    return vop('it%d.%s' % (pos, op.args[0]), (cnt,) + tuple(op.args[1]), tuple(x0 if x is hv else x for x in op.args[2]))


class Head:
    """symbolic value of a modified location at the head of iteration t"""
    def __init__(self, f):
        self.f = f


def for_parts(n):
    inner = n['inner']
    if n['kind'] == 'ForStmt':
        init, cv, cond, inc, body = (inner + [{}] * 5)[:5]
        return init, cond, inc, body
    if n['kind'] == 'WhileStmt':
        inner = [c for c in inner if c.get('kind')]
        return None, inner[0], None, inner[1]
    if n['kind'] == 'DoStmt':
        return None, inner[1], None, inner[0]
    raise Unsupported('loop kind')


def exec_loop(eng, n, omp=None):
    fr = eng.frames[-1]
    n0 = len(fr.objs)
    init, cond, inc, body = for_parts(n)
    line = n.get('_l')
    states = [eng.st]
    res = []
    if init and init.get('kind'):
        outs = eng.stmt1(init)
        states = [o.st for o in outs]
    loop = Loop(eng, n, cond if cond and cond.get('kind') else None, inc if inc and inc.get('kind') else None, body, line, omp)
    if n['kind'] == 'DoStmt':
        nxt = []
        for s in states:
            eng.st = s
            for o in eng.stmt1(body):
                if o.kind in ('normal', 'continue'):
                    nxt.append(o.st)
                elif o.kind == 'break':
                    res.append(Outcome('normal', o.st))
                else:
                    res.append(o)
        states = nxt
    base = eng.st.pc
    for s in states:
        eng.st = s
        res += loop.run()
    dead = set(fr.objs[n0:])
    if dead:
        for o in res:
            o.st.cells = {c: v for c, v in o.st.cells.items() if c[0] not in dead}
            for d in dead:
                o.st.arrs.pop(d, None)
                o.st.init.pop(d, None)
        del fr.objs[n0:]
    if loop.invs_:
        return res            # the ways out of a loop with stated invariants stay apart: each satisfies them as they stand
    return eng.join(base, res)


def bare(x):
    while x.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr', 'ExprWithCleanups') and x.get('inner'):
        x = x['inner'][-1]
    return x


def names(x, nm):
    """how often variable nm occurs below x"""
    k = int(x.get('kind') == 'DeclRefExpr' and x.get('referencedDecl', {}).get('name') == nm)
    return k + sum(names(c, nm) for c in x.get('inner', ()) if isinstance(c, dict))


def accumulates(loop, nm, op):
    """True: every occurrence of nm in the loop is an accumulation with op; False: certainly not; None: not recognised"""
    total = sum(names(c, nm) for c in loop.get('inner', ()) if isinstance(c, dict))
    seen, ok = 0, True

    def isv(x):
        return bare(x).get('kind') == 'DeclRefExpr' and names(x, nm) == 1

    def walk(x):
        nonlocal seen, ok
        k = x.get('kind')
        if k == 'CompoundAssignOperator' and isv(x['inner'][0]):
            if names(x['inner'][1], nm):
                ok = False
            elif op == '+' and x['opcode'] in ('+=', '-=') or op == '*' and x['opcode'] == '*=':
                seen += 1
            else:
                ok = False
        elif k == 'BinaryOperator' and x.get('opcode') == '=' and isv(x['inner'][0]) and op in ('+', '*'):
            r = bare(x['inner'][1])
            if r.get('kind') == 'BinaryOperator' and r.get('opcode') in (('+', '-') if op == '+' else ('*',)):
                # a left-leaning chain nm + e1 + e2 ... or e + nm
                l, q = r['inner']
                if r['opcode'] != '-' and isv(q) and not names(l, nm):
                    seen += 2
                else:
                    while not isv(l) and bare(l).get('kind') == 'BinaryOperator' and bare(l).get('opcode') in (('+', '-') if op == '+' else ('*',)) and not names(q, nm):
                        l, q = bare(l)['inner']
                    if isv(l) and not names(q, nm):
                        seen += 2
            elif names(r, nm) == 0:
                ok = False
        elif k == 'UnaryOperator' and x.get('opcode') in ('++', '--') and isv(x['inner'][0]) and op == '+':
            seen += 1
        elif k == 'BinaryOperator' and x.get('opcode') == '=' and isv(x['inner'][0]) and op in ('max', 'min'):
            r = bare(x['inner'][1])
            if r.get('kind') == 'ConditionalOperator':
                c, a, b = (bare(z) for z in r['inner'])
                if c.get('kind') == 'BinaryOperator' and c.get('opcode') in ('<', '>', '<=', '>='):
                    l, h = c['inner']
                    big = c['opcode'] in ('>', '>=')
                    # v = e > v ? e : v  keeps the larger one
                    if isv(h) and isv(b) and not names(a, nm) and not names(l, nm):
                        seen += 3
                        ok = ok and big == (op == 'max')
                    elif isv(l) and isv(a) and not names(b, nm) and not names(h, nm):
                        seen += 3
                        ok = ok and big == (op == 'max')
                    elif isv(h) and isv(a) and not names(b, nm) and not names(l, nm):
                        seen += 3
                        ok = ok and big != (op == 'max')
                    elif isv(l) and isv(b) and not names(a, nm) and not names(h, nm):
                        seen += 3
                        ok = ok and big != (op == 'max')
        for c in x.get('inner', ()):
            if isinstance(c, dict):
                walk(c)
    walk(loop)
    # one occurrence is the assignment target
    if not ok:
        return False
    return True if seen == total else None


def shared_writes(eng, s, private):
    """a plain statement of a parallel region is executed by every thread: a shared variable may not be written there"""
    def walk(x):
        if x.get('kind', '').startswith('OMP'):
            return
        if x.get('kind') in ('CompoundAssignOperator', 'BinaryOperator') and x.get('opcode', '').endswith('=') and x['opcode'] not in ('==', '!=', '<=', '>='):
            l = bare(x['inner'][0])
            if l.get('kind') == 'DeclRefExpr' and l['referencedDecl']['name'] not in private:
                eng.obl('race', FALSE, 'shared variable %s is not written by every thread' % l['referencedDecl']['name'], x)
        for c in x.get('inner', ()):
            if isinstance(c, dict):
                walk(c)
    walk(s)


def exec_parallel(eng, n):
    """omp parallel { declarations; omp for loops }: what is declared in the region is private to a thread"""
    info = parse_pragma(pragma_text(eng.frames[-1].unit, n))
    body = None

    def find(x):
        nonlocal body
        for c in x.get('inner', ()):
            if body is None and isinstance(c, dict):
                if c.get('kind') in ('CompoundStmt',) or c.get('kind', '').startswith('OMP') and c['kind'].endswith('Directive'):
                    body = c
                elif c.get('kind') in ('CapturedStmt', 'CapturedDecl'):
                    find(c)
    find(n)
    if body is None:
        raise Unsupported('OpenMP parallel region')
    sts = body['inner'] if body['kind'] == 'CompoundStmt' else [body]
    names_ = set(info['private'])
    for s in sts:
        if s['kind'] == 'DeclStmt':
            names_ |= {d['name'] for d in s['inner'] if d.get('kind') == 'VarDecl' and d.get('storageClass') != 'static'}
        elif s['kind'] != 'NullStmt' and not s['kind'].startswith('OMP'):
            shared_writes(eng, s, names_)
    for s in sts:
        if s['kind'] == 'NullStmt':
            continue
        if s['kind'] == 'DeclStmt':
            names_ |= {d['name'] for d in s['inner'] if d.get('kind') == 'VarDecl' and d.get('storageClass') != 'static'}
            outs = eng.stmt1(s)
        elif s['kind'] == 'OMPForDirective' and 'nowait' not in pragma_text(eng.frames[-1].unit, s):
            outs = exec_omp(eng, s, names_)
        else:
            raise Unsupported('statement %s in an OpenMP parallel region' % s['kind'])
        if len(outs) != 1 or outs[0].kind != 'normal':
            raise Unsupported('control flow in an OpenMP parallel region')
        eng.st = outs[0].st
    return eng.normal()


def exec_omp(eng, n, private=()):
    k = n['kind']
    if k == 'OMPParallelDirective':
        return exec_parallel(eng, n)
    if k not in ('OMPParallelForDirective', 'OMPForDirective', 'OMPParallelForSimdDirective', 'OMPSimdDirective', 'OMPForSimdDirective'):
        raise Unsupported('OpenMP directive ' + k)
    text = pragma_text(eng.frames[-1].unit, n)
    if re.search(r'\b(collapse|ordered|copyin|copyprivate|linear)\s*\(?', text):
        raise Unsupported('OpenMP clause in ' + text.strip())
    if 'pragma' not in text:
        raise Unsupported('OpenMP directive without a pragma line')
    info = parse_pragma(text)
    info['private'] |= set(private)
    # find the ForStmt
    st = None

    def find(x):
        nonlocal st
        if st is not None:
            return
        if x.get('kind') == 'ForStmt':
            st = x
            return
        for c in x.get('inner', ()):
            if isinstance(c, dict):
                find(c)
    find(n)
    if st is None:
        raise Unsupported('OpenMP loop not found')
    return exec_loop(eng, st, info)


def parse_pragma(text):
    info = dict(private=set(), firstprivate=set(), lastprivate=set(), reduction={}, shared=set(), text=text)
    for m in re.finditer(r'(private|firstprivate|lastprivate|shared|reduction)\s*\(([^)]*)\)', text):
        kind, args = m.group(1), m.group(2)
        if kind == 'reduction':
            op, _, names = args.partition(':')
            for x in names.split(','):
                info['reduction'][x.strip()] = op.strip()
        else:
            info[kind] |= {x.strip() for x in args.split(',') if x.strip()}
    return info


def _nets(outs):
    return [o for o in outs if o.kind in ('normal', 'continue')]


class Loop:
    def __init__(self, eng, node, cond, inc, body, line, omp):
        self.eng, self.node, self.cond, self.inc, self.body, self.line, self.omp = eng, node, cond, inc, body, line, omp

    # ---- one generic iteration from state st; returns (cont_state or None, exits, brk conds)
    def iteration(self, st, with_cond=True):
        eng = self.eng
        eng.st = st
        exits = []
        fr = eng.frames[-1]
        n0 = len(fr.objs)
        if self.cond is not None and with_cond:
            c = as_bool(eng.ev(self.cond))
            self.condval = c
            c2 = c
            d = eng.decide(c2)
            if d is False:
                raise Bail('loop condition false in generic iteration')
            if d is not True:
                eng.assume(c2, 'c')
        else:
            self.condval = TRUE
        outs = eng.stmt1(self.body)
        conts = []
        for o in outs:
            if o.kind in ('normal', 'continue'):
                conts.append(o.st)
            else:
                exits.append(o)
        if not conts:
            del fr.objs[n0:]
            return None, exits
        self.conts = conts
        st2, _ = merge_states(None, conts)
        eng.st = st2
        if self.inc is not None:
            eng.ev(self.inc)
        dead = set(fr.objs[n0:])
        del fr.objs[n0:]
        st2 = eng.st
        st2.cells = {c: v for c, v in st2.cells.items() if c[0] not in dead}
        return st2, exits

    # ---- symbolic havoc values
    def havoc_val(self, v, name):
        if isinstance(v, D):
            return D(fresh('hv.' + name, 'R'), FALSE if v.nan is FALSE else fresh('hv.nan.' + name, 'B'))
        if isinstance(v, Term):
            if v.sort in ('I', 'B'):
                return fresh('hv.' + name, 'I')
            raise Unsupported('havoc of %r' % v)
        if isinstance(v, Ptr):
            if v.obj is None:
                return None
            return Ptr(v.obj, fresh('hv.' + name, 'I'), FALSE, v.path)
        if v is UNDEF or isinstance(v, Maybe):
            return v
        if isinstance(v, FnV):
            return v
        return None

    def cname(self, c):
        return '%s%s' % (c[0].name, ''.join('.' + str(x) for x in c[1]))

    def run(self):
        eng = self.eng
        s0 = eng.st
        snap = (len(eng.obls), list(eng.taint))
        mute = eng.mute
        # ghost specifications first
        for g in list(eng.ghost_specs):
            r = g.try_loop(self, s0)
            if r is not None:
                return r
            eng.st = s0
        try:
            return self.closed_form(s0)
        except Bail as e:
            del eng.obls[snap[0]:]
            eng.taint[:] = snap[1]
            eng.mute = mute
            eng.st = s0
            return self.unroll(s0, str(e))
        except Unsupported as e:
            del eng.obls[snap[0]:]
            eng.taint[:] = snap[1]
            eng.mute = mute
            eng.st = s0
            return self.unroll(s0, str(e))

    const_trip = False

    def unroll(self, s0, why):
        eng = self.eng
        outs = []
        cur = [s0]
        nobl = len(eng.obls)
        for i in range(UNROLL + 1):
            nxt = []
            for s in cur:
                eng.st = s
                if self.cond is not None:
                    c = eng.simp_bool(as_bool(eng.ev(self.cond)))
                    if c is FALSE:
                        outs.append(Outcome('normal', eng.st))
                        continue
                    if c is not TRUE:
                        del eng.obls[nobl:]
                        raise Unsupported('loop at line %s: %s' % (self.line, why))
                if i == UNROLL:
                    raise Unsupported('loop at line %s does not unroll: %s' % (self.line, why))
                for o in eng.stmt1(self.body):
                    if o.kind in ('normal', 'continue'):
                        eng.st = o.st
                        if self.inc is not None:
                            eng.ev(self.inc)
                        nxt.append(eng.st)
                    elif o.kind == 'break':
                        outs.append(Outcome('normal', o.st))
                    else:
                        outs.append(o)
            if not nxt:
                break
            if len(nxt) > 1:
                try:
                    m, _ = merge_states(None, nxt)
                    nxt = [m]
                except MergeFail:
                    pass
            cur = nxt
        return eng.join(s0.pc, outs)

    # ---------------------------------------------------------------- modified set by dry runs
    def modified(self, s0):
        eng = self.eng
        mod_c, mod_a, mod_i, mod_l = {}, {}, {}, set()
        cells0 = set(s0.cells)
        # what an earlier look at this loop found to change
        kc, ka, ki = eng.mod_cache.get(id(self.node), ((), (), ()))
        for c in kc:
            v = s0.cells.get(c)
            if v is not None:
                h = self.havoc_val(v, self.cname(c))
                if h is not None:
                    mod_c[c] = h
        for a in ka:
            if a in s0.arrs:
                mod_a[a] = fresh_vec('hv.' + a.name, esort(s0.arrs[a]))
        for a in ki:
            if a in s0.init:
                mod_i[a] = fresh_vec('hv.i.' + a.name, 'I')
        eng.modphase += 1
        try:
            return self.modified1(s0, mod_c, mod_a, mod_i, cells0)
        finally:
            eng.modphase -= 1
            eng.mod_cache[id(self.node)] = (tuple(mod_c), tuple(mod_a), tuple(mod_i))

    def modified1(self, s0, mod_c, mod_a, mod_i, cells0):
        eng = self.eng
        for rnd in range(8):
            st = s0.copy()
            for c in mod_c:
                st.cells[c] = mod_c[c]
            for a in mod_a:
                st.arrs[a] = mod_a[a]
            for a in mod_i:
                st.init[a] = mod_i[a]
            ref = st.copy()
            eng.mute += 1
            try:
                # no path facts about modified things: conditions on the entry state stay valid (they are about entry values)
                s2, exits = self.iteration(st)
            finally:
                eng.mute -= 1
            grew = False
            for s in ([s2] if s2 is not None else []):
                for c in cells0:
                    v = s.cells.get(c, UNDEF)
                    r = ref.cells.get(c, UNDEF)
                    if c not in mod_c and not (v is r or (type(v) is type(r) and v == r)):
                        h = self.havoc_val(r if r is not UNDEF and not isinstance(r, Maybe) else r, self.cname(c))
                        if h is None:
                            # pointer with null origin etc: take new value's shape
                            h = self.havoc_val(v, self.cname(c))
                            if h is None:
                                raise Bail('cell %s changes in an unsupported way' % self.cname(c))
                        mod_c[c] = h
                        grew = True
                    h = mod_c.get(c)
                    if isinstance(h, D) and h.nan is FALSE and isinstance(v, D) and v.nan is not FALSE:
                        mod_c[c] = D(h.t, fresh('hv.nan.' + self.cname(c), 'B'))
                        grew = True
                for a in ref.arrs:
                    if a not in mod_a and s.arrs.get(a) is not ref.arrs[a]:
                        mod_a[a] = fresh_vec('hv.' + a.name, esort(ref.arrs[a]))
                        grew = True
                for a in ref.init:
                    if a not in mod_i and s.init.get(a) is not ref.init[a]:
                        mod_i[a] = fresh_vec('hv.i.' + a.name, 'I')
                        grew = True
                for a in s.live:
                    if a not in ref.live:
                        raise Bail('allocation in loop')
                    if s.live[a] is not ref.live[a]:
                        raise Bail('release in loop')
            if not grew:
                return mod_c, mod_a, mod_i
        raise Bail('modified set does not stabilise')

    def rough(self, s0, mod_c, mod_a, mod_i):
        """only what changes matters (while an enclosing loop finds out what it changes): one iteration from an arbitrary
        state, and an arbitrary final state"""
        eng = self.eng
        st = self.head_state(s0, self.t, mod_c, mod_a, mod_i, {}, None)
        s2, exits = self.iteration(st)
        sf = s0.copy()
        for c in mod_c:
            sf.cells[c] = self.havoc_val(mod_c[c], self.cname(c))
        for a in mod_a:
            sf.arrs[a] = fresh_vec('hv.' + a.name, esort(s0.arrs[a]))
        for a in mod_i:
            sf.init[a] = fresh_vec('hv.i.' + a.name, 'I')
        res = []
        for o in exits:
            if o.kind != 'break':
                res.append(o)
                continue
            if o.st.live != s0.live:
                res.append(Outcome('normal', o.st))
                continue
            for c, v0 in s0.cells.items():
                v = o.st.cells.get(c, UNDEF)
                if c not in mod_c and not (v is v0 or (type(v) is type(v0) and v == v0)):
                    h = self.havoc_val(v, self.cname(c))
                    if h is None:
                        raise Bail('cell %s changes in an unsupported way' % self.cname(c))
                    sf.cells[c] = h
            for a in s0.arrs:
                if a not in mod_a and o.st.arrs.get(a) is not s0.arrs[a]:
                    sf.arrs[a] = fresh_vec('hv.' + a.name, esort(s0.arrs[a]))
            for a in s0.init:
                if a not in mod_i and o.st.init.get(a) is not s0.init[a]:
                    sf.init[a] = fresh_vec('hv.i.' + a.name, 'I')
        return res + [Outcome('normal', sf)]

    # ---------------------------------------------------------------- main
    def closed_form(self, s0):
        eng = self.eng
        t = fresh('it', 'I')
        ta = atom_of(t)
        self.t, self.ta = t, ta
        # zero-trip shortcut
        if self.cond is not None:
            eng.mute += 1
            try:
                eng.st = s0.copy()
                c = as_bool(eng.ev(self.cond))
                if eng.decide(c) is False:
                    eng.mute -= 1
                    eng.st = s0
                    eng.ev(self.cond)
                    eng.mute += 1
                    return [Outcome('normal', eng.st)]
            finally:
                eng.mute -= 1
        mod_c, mod_a, mod_i = self.modified(s0)
        if eng.modphase:
            return self.rough(s0, mod_c, mod_a, mod_i)
        omp = self.omp
        Hc = dict(mod_c)
        H = {}
        for c, v in mod_c.items():
            H[c] = v
        resolved = {}         # key -> function t -> value
        keys = [('c', c) for c in mod_c] + [('a', a) for a in mod_a] + [('i', a) for a in mod_i]
        priv = set()
        loopvar = None
        if omp is not None:
            for c in mod_c:
                if self.is_loop_var(c):
                    continue
                if c[0].name in omp['private']:
                    priv.add(('c', c))
                    resolved[('c', c)] = lambda tt: UNDEF
            # firstprivate: entry value at each thread start -- only unmodified uses supported
        Tn = None             # trip count from the condition
        self.pieces = {}
        rounds = 0
        limit = 10
        if any(g(self, s0, mod_c, mod_a) for g in eng.invs):
            limit = 1                 # a loop with stated invariants: only its counters are solved
        while True:
            rounds += 1
            if rounds > limit:
                break
            st = self.head_state(s0, t, mod_c, mod_a, mod_i, resolved, Tn)
            self.mark = T._cnt[0]
            eng.mute += 1
            try:
                s2, exits = self.iteration(st)
            finally:
                eng.mute -= 1
            if s2 is None:
                break
            if Tn is None:
                Tn = self.trip(self.condval, mod_c, resolved)
                if Tn is not None:
                    # restart with the bound known
                    ct = is_const(Tn)
                    if ct is not None and ct <= UNROLL and omp is None:
                        self.const_trip = True
            unres = [k for k in keys if k not in resolved]
            if not unres:
                if Tn is not None or rounds > 1:
                    break
                continue
            hatoms = {}
            for k in unres:
                hatoms[k] = self.hatom(k, mod_c, mod_a, mod_i)
            progress = False
            eng.st = s2
            for k in unres:
                allh = set()
                for k2 in unres:
                    if k2 != k and hatoms[k2] is not None:
                        allh.add(hatoms[k2])
                    if k2[0] == 'c' and isinstance(mod_c[k2[1]], D) and mod_c[k2[1]].nan is not FALSE:
                        allh.add(mod_c[k2[1]].nan)
                f = self.recognise(k, s0, s2, hatoms[k], allh, mod_c, mod_a, mod_i, Tn, resolved)
                if f is not None:
                    resolved[k] = f
                    progress = True
                    if k[0] == 'a':
                        break
            if not progress:
                break
        unres = [k for k in keys if k not in resolved]
        const_n = is_const(Tn) if Tn is not None else None
        if unres and const_n is not None and const_n <= UNROLL:
            raise Bail('constant trip count')
        for k in unres:
            what = self.cname(k[1]) if k[0] == 'c' else k[1].name
            eng.notes.append('loop at line %s: no closed form for %s (left arbitrary)' % (self.line, what))
        # ---- real generic iteration
        st = self.head_state(s0, t, mod_c, mod_a, mod_i, resolved, Tn)
        invs = self.invariants(s0, st, mod_c, mod_a)
        for nm, f in invs:
            st.pc = st.pc + tuple(('f', x) for x in P.flat([f(st)]))
        eng.loops_closed += 1
        reads_save, wlog_save = eng.reads, eng.writes_log
        if omp is not None:
            eng.reads, eng.writes_log = [], []
        head_ref = st.copy()
        s2, exits = self.iteration(st)
        reads = eng.reads
        wlog = eng.writes_log
        eng.reads = reads_save
        if omp is not None:
            eng.writes_log = wlog_save
            if reads_save is not None:
                reads_save.extend(reads)
                wlog_save.extend(wlog)
        if omp is not None:
            self.race(s0, s2, reads, wlog, mod_c, mod_a, resolved, priv, Tn, exits)
        if invs and not eng.mute and s2 is not None:
            for nm, f in invs:
                for c in self.conts:
                    eng.st = c.copy()
                    eng.obl('func', f(c), 'loop invariant kept: ' + nm, self.node)
            eng.st = s2
        self.invs_ = invs
        # ---- exits
        res = []
        self.lost = None
        noexit = self.no_exit_fact(exits, s0)
        # the outcomes are merged later on: what tells them apart has to be part of their path conditions
        dom = [ge(t, I(0))] + ([lt(t, Tn)] if Tn is not None else [])
        sel = fresh('exit', 'B') if exits and noexit is None else None
        for o in exits:
            o2 = Outcome('normal' if o.kind == 'break' else o.kind, o.st, o.val)
            o2.st.pc = tuple(('c', x) if x in dom else (g, x) for g, x in o2.st.pc) + ((('c', sel),) if sel is not None else ())
            if noexit is not None:
                o2.st.pc = o2.st.pc + (('f', forall(t, lambda j: not_(subst(noexit, {ta: j})))),)
            res.append(o2)
        # normal exit
        if self.cond is not None:
            eng.st = s0.copy()
            if Tn is not None:
                d = eng.decide(ge(Tn, I(0)))
                Tc = Tn if d is True else ite(ge(Tn, I(0)), Tn, I(0))
                extra = self.extra_cond(Tn)
                sf = s0.copy()
                fin = Tc
                self.final_state(sf, s0, fin, mod_c, mod_a, mod_i, resolved, priv)
                if noexit is not None and exits:
                    sf.pc = sf.pc + (('c', forall(Tn, lambda j: not_(subst(noexit, {ta: j})))),)
                if sel is not None:
                    sf.pc = sf.pc + (('c', not_(sel)),)
                if self.residual is not TRUE:
                    r = self.residual
                    sf.pc = sf.pc + (('c', forall(Tn, lambda j: subst(r, {ta: j}))),)
                res.append(Outcome('normal', sf))
                if self.residual is not TRUE:
                    # exit because the non-linear conjunct fails at some t < T
                    te = fresh('ex', 'I')
                    sx = s0.copy()
                    sx.pc = sx.pc + (('c', and_(ge(te, I(0)), lt(te, Tn), not_(subst(self.residual, {ta: te})))),)
                    sx.pc = sx.pc + (('f', forall(te, lambda j: subst(self.residual, {ta: j}))),)
                    if noexit is not None and exits:
                        sx.pc = sx.pc + (('f', forall(te, lambda j: not_(subst(noexit, {ta: j})))),)
                    if sel is not None:
                        sx.pc = sx.pc + (('c', not_(sel)),)
                    self.final_state(sx, s0, te, mod_c, mod_a, mod_i, resolved, priv)
                    res.append(Outcome('normal', sx))
            else:
                te = fresh('ex', 'I')
                sx = s0.copy()
                sx.pc = sx.pc + (('c', ge(te, I(0))),) + ((('c', not_(sel)),) if sel is not None else ())
                self.final_state(sx, s0, te, mod_c, mod_a, mod_i, resolved, priv)
                eng.st = sx
                eng.mute += 1
                try:
                    c = as_bool(eng.ev(self.cond))
                finally:
                    eng.mute -= 1
                sx = eng.st
                d = P.decide(P.flat(sx.hyps()), not_(c))
                if d is not False:
                    if d is not True:
                        sx.pc = sx.pc + (('c', not_(c)),)
                    cv = self.condval
                    if not self.has_new_fresh(cv):
                        sx.pc = sx.pc + (('f', forall(te, lambda j: subst(cv, {ta: j}))),)
                    if noexit is not None and exits:
                        sx.pc = sx.pc + (('f', forall(te, lambda j: not_(subst(noexit, {ta: j})))),)
                    res.append(Outcome('normal', sx))
        if not res and not eng.mute:
            eng.obls.append(dict(fn=eng.fname, cat='vacuity', what='the loop can be left', line=self.line, status='invalid', reason='', model=None, time=0, taint=['loop with no way out'], term=None))
        if self.lost is not None:
            for o in res:
                o.st.pc = o.st.pc + (('f', self.lost),)
        return res

    def extra_cond(self, Tn):
        return TRUE

    mark = 0

    def has_new_fresh(self, x):
        """mentions a value chosen anew in each iteration"""
        return any(s.kind in ('var', 'vatom') and isinstance(s.args[0], str) and
                   (s.args[0].startswith(('hv.', 'c!', 'null')) or s.id > self.mark and '!' in s.args[0])
                   for s in subterms_set(x))

    def val_fresh(self, v):
        if isinstance(v, D):
            return self.has_body_fresh(v.t) or self.has_body_fresh(v.nan)
        if isinstance(v, Ptr):
            return self.has_body_fresh(v.off) or self.has_body_fresh(v.null)
        if isinstance(v, Maybe):
            return self.has_body_fresh(v.cond) or self.val_fresh(v.val)
        if isinstance(v, Term):
            return self.has_body_fresh(v)
        if isinstance(v, SV):
            return any(self.val_fresh(y) for y in v.f.values())
        return False

    def no_exit_fact(self, exits, s0):
        if not exits:
            return None
        conds = []
        for o in exits:
            n = 0
            cs = [x for g, x in o.st.pc if g == 'c' and (g, x) not in s0.pc]
            if not cs:
                return None
            # drop the loop-domain conditions (they mention only t): keep all, harmless
            cs = P.flat(cs)
            for x in list(cs):
                cs = [y if y is x else P.subst_ites(y, x, True) for y in cs]
            conds.append(and_(*cs))
        r = or_(*conds)
        if self.has_new_fresh(r) or any(s.kind == 'forallr' for s in subterms_set(r)):
            # that the loop did not leave earlier cannot be stated: a failed proof about the same quantities is not conclusive
            self.lost = or_(fresh('hv.lost', 'B'), not_(r))
            return None
        return r

    def hatom(self, k, mod_c, mod_a, mod_i):
        kind, x = k
        if kind == 'c':
            v = mod_c[x]
            if isinstance(v, D):
                return atom_of(v.t)
            if isinstance(v, Ptr):
                return atom_of(v.off)
            if isinstance(v, Term):
                return atom_of(v)
            return None
        if kind == 'a':
            return mod_a[x]
        return mod_i[x]

    def head_state(self, s0, t, mod_c, mod_a, mod_i, resolved, Tn):
        st = s0.copy()
        pc = [('f', ge(t, I(0)))]
        if Tn is not None:
            pc.append(('f', lt(t, Tn)))
        st.pc = st.pc + tuple(pc)
        for c in mod_c:
            st.cells[c] = resolved[('c', c)](t) if ('c', c) in resolved else mod_c[c]
        for a in mod_a:
            st.arrs[a] = resolved[('a', a)](t) if ('a', a) in resolved else mod_a[a]
        for a in mod_i:
            st.init[a] = resolved[('i', a)](t) if ('i', a) in resolved else mod_i[a]
        return st

    def invariants(self, s0, st, mod_c, mod_a):
        """candidate invariants of the contract that hold at entry and are kept by an iteration (greatest such subset)"""
        eng = self.eng
        cands = [c for g in getattr(eng, 'invs', ()) for c in g(self, s0, mod_c, mod_a)]
        if not cands:
            return []
        key = (id(self.node), eng.fname)
        cache = eng.inv_cache
        if eng.mute:
            keep = cache.get(key)
            return [c for c in cands if keep is None or c[0] in keep]
        act = []
        for nm, f in cands:
            eng.st = s0.copy()
            g = f(s0)
            if g is not None and P.prove(eng.hyps(), g, eng.budget, 2):
                act.append((nm, f))
        while act:
            h = st.copy()
            for nm, f in act:
                h.pc = h.pc + tuple(('f', x) for x in P.flat([f(h)]))
            eng.mute += 1
            try:
                s2, ex = self.iteration(h)
            finally:
                eng.mute -= 1
            if s2 is None:
                break
            good = []
            cs = self.conts
            for nm, f in act:
                ok = True
                for c in cs:
                    eng.st = c.copy()
                    g = f(c)
                    if g is None or not P.prove(eng.hyps(), g, eng.budget, 2) and P.sat(eng.hyps(), 1) != 'unsat':
                        ok = False
                        break
                if ok:
                    good.append((nm, f))
            if len(good) == len(act):
                break
            act = good
        cache[key] = {nm for nm, f in act}
        for nm, f in act:
            eng.st = s0.copy()
            eng.obl('func', f(s0), 'loop invariant holds initially: ' + nm, self.node)
        dropped = [nm for nm, f in cands if nm not in cache[key]]
        if dropped:
            eng.notes.append('loop at line %s: not invariant: %s' % (self.line, ', '.join(dropped)))
        return act

    def final_state(self, sf, s0, fin, mod_c, mod_a, mod_i, resolved, priv):
        self.final_state0(sf, s0, fin, mod_c, mod_a, mod_i, resolved, priv)
        for nm, f in self.invs_:
            sf.pc = sf.pc + tuple(('f', x) for x in P.flat([f(sf)]))

    invs_ = ()

    def final_state0(self, sf, s0, fin, mod_c, mod_a, mod_i, resolved, priv):
        eng = self.eng
        hy = P.flat(sf.hyps())
        for c in mod_c:
            if ('c', c) in priv:
                continue                     # private copies vanish
            if self.omp is not None and self.is_loop_var(c):
                sf.cells[c] = UNDEF          # value after the construct is unspecified
                continue
            if ('c', c) in resolved:
                f = resolved[('c', c)]
                v = f(fin)
                eng.st = sf
                if isinstance(v, D):
                    v = D(eng.simp(v.t), v.nan)
                elif isinstance(v, Term) and v.sort == 'I':
                    v = eng.simp(v)
                elif isinstance(v, Ptr):
                    v = Ptr(v.obj, eng.simp(v.off), v.null, v.path)
                elif isinstance(v, Maybe):
                    d = P.decide(hy, v.cond)
                    if d is True:
                        v = v.val
                    elif d is False:
                        v = UNDEF
                sf.cells[c] = v
            else:
                sf.cells[c] = self.havoc_val(mod_c[c], self.cname(c))
        for a in mod_a:
            if ('a', a) in resolved:
                sf.arrs[a] = self.simp_vec(sf, a, resolved[('a', a)](fin))
            else:
                sf.arrs[a] = fresh_vec('hv.' + a.name, esort(s0.arrs[a]))
        for a in mod_i:
            if ('i', a) in resolved:
                v = self.simp_vec(sf, a, resolved[('i', a)](fin))
                if v.kind == 'vlam' and v.args[1] is I(1):
                    sf.init.pop(a, None)
                else:
                    sf.init[a] = v
            else:
                sf.init[a] = fresh_vec('hv.i.' + a.name, 'I')

    def simp_vec(self, st, a, v):
        eng = self.eng
        if v.kind != 'vlam':
            return v
        k = fresh('sv', 'I')
        save = eng.st
        s = st.copy()
        s.pc = s.pc + (('f', ge(k, I(0))),) + ((('f', lt(k, a.len)),) if a.len is not None else ())
        eng.st = s
        body = eng.simp(app(v, k))
        eng.st = save
        return vlam_body(body, k)

    # ---------------------------------------------------------------- trip count
    residual = TRUE

    def trip(self, cond, mod_c, resolved):
        """T such that cond(t) <=> t < T (and residual(t)), or None"""
        ta = self.ta
        self.residual = TRUE
        cs = list(cond.args) if cond.kind == 'and' else [cond]
        best = None
        rest = []
        for c in cs:
            x = self.trip1(c)
            if x is not None and best is None:
                best = x
            else:
                rest.append(c)
        if best is None:
            return None
        for c in rest:
            if any(s.kind in ('var', 'vatom') and isinstance(s.args[0], str) and s.args[0].startswith('hv.') for s in subterms_set(c)):
                return None
        self.residual = and_(*rest) if rest else TRUE
        return best

    def trip1(self, c):
        ta = self.ta
        if c.kind not in ('le0', 'not', 'eq0', 'lt0'):
            return None
        isne = False
        if c.kind == 'not':
            if c.args[0].kind != 'eq0':
                return None
            p = c.args[0].args[0]
            isne = True
        elif c.kind == 'le0':
            p = c.args[0]
        else:
            return None
        if p.sort != 'I':
            return None
        coef, q = split_lin(p, ta)
        if coef is None or is_hv(q):
            return None
        cc = is_const(coef)
        if cc is None:
            return None
        cc = int(cc)
        if isne:
            if abs(cc) != 1:
                return None
            Tn = neg(q) if cc == 1 else q
            if self.eng.decide(ge(Tn, I(0))) is not True:
                return None
            return Tn
        if cc <= 0:
            return None
        if cc == 1:
            return I(1) - q
        return ediv(neg(q), I(cc)) + I(1)

    # ---------------------------------------------------------------- recognition
    def recognise(self, k, s0, s2, h, others, mod_c, mod_a, mod_i, Tn, resolved):
        kind, x = k
        ta = self.ta
        t = self.t
        eng = self.eng
        if kind == 'c':
            x0 = s0.cells[x]
            N = s2.cells.get(x, UNDEF)
            hv = mod_c[x]
            return self.rec_val(x0, N, hv, h, others, x)
        a = x
        if kind == 'a' and a.hint is not None:
            f = resolved.get(('c', (a, ('$F',))))
            return None if f is None else (lambda tt: eng.frontier(a, f(tt)))
        a0 = (s0.arrs if kind == 'a' else s0.init)[a]
        N = (s2.arrs if kind == 'a' else s2.init).get(a)
        if N is None:        # init vector deleted = fully initialised
            N = vlam(lambda j: I(1), 'I')
        hv = (mod_a if kind == 'a' else mod_i)[a]
        if self.has_body_fresh(N):
            return None
        return self.rec_array(a, kind, a0, N, hv, others, s0, s2, Tn)

    def rec_val(self, x0, N, hv, h, others, c):
        t, ta = self.t, self.ta
        if isinstance(N, Maybe):
            d = self.eng.decide(N.cond)
            if d is True:
                N = N.val
        if N is UNDEF:
            return (lambda tt: UNDEF) if x0 is UNDEF else None
        if isinstance(x0, Maybe) and (isinstance(hv, Maybe) or hv is UNDEF):
            x0u = x0
        if hv is UNDEF or isinstance(hv, Maybe):
            # dead at entry
            if self.val_fresh(N):
                Nv = N.val if isinstance(N, Maybe) else N
                if self.havoc_val(Nv, self.cname(c)) is None:
                    return None
                if isinstance(N, Maybe):
                    return lambda tt, N=N: self.prev(tt, x0, Maybe(fresh('hv.set', 'B'), self.havoc_val(Nv, self.cname(c))))
                return lambda tt, N=N: self.prev(tt, x0, self.havoc_val(Nv, self.cname(c)))
            if isinstance(N, Maybe):
                if N.val is UNDEF or self.mentions(N.val, others) or self.mentions(N.cond, others):
                    return None
                # partially written each iteration: value at head unknown unless condition of the previous iteration
                return lambda tt, N=N: self.prev(tt, x0, N)
            if self.mentions(N, others):
                return None
            return lambda tt, N=N: self.prev(tt, x0, N)
        if isinstance(N, Maybe):
            return None
        if isinstance(N, D):
            hvD = hv if isinstance(hv, D) else None
            if hvD is None or not isinstance(x0, (D, Term)):
                return None
            x0 = as_d(x0)
            if N.nan is not FALSE:
                if not P.prove(self.eng.hyps(), not_(N.nan), 5, 1):
                    return None
            if x0.nan is not FALSE:
                # entry NaN: only memoryless overwrites clear it
                if h in subterms_set(N.t):
                    return None
            f = self.rec_num(x0.t, N.t, hvD.t, h, others)
            if f is None:
                return None
            nan0 = x0.nan
            if nan0 is FALSE:
                return lambda tt: D(f(tt))
            return lambda tt: D(f(tt), and_(eq(tt, I(0)), nan0))
        if isinstance(N, Ptr):
            if not isinstance(hv, Ptr) or N.obj is not hv.obj or N.path != hv.path or N.null is not FALSE:
                if not isinstance(x0, Ptr) or self.mentions(N, others | {h}) or self.val_fresh(N):
                    return None
                if N.obj is not x0.obj and x0.obj is not None:
                    return None
                return lambda tt, N=N: self.prev(tt, x0, N)
            f = self.rec_num(x0.off, N.off, hv.off, h, others)
            if f is None:
                return None
            return lambda tt: Ptr(N.obj, f(tt), x0.null, N.path)
        if isinstance(N, Term):
            N = as_int(N)
            f = self.rec_num(as_int(x0), N, hv, h, others)
            return f
        return None

    def prev(self, tt, x0, N):
        """x0 if tt == 0 else N(tt-1)"""
        ta = self.ta
        v = subst_val(N, {ta: tt - I(1)})
        c = is_const(tt)
        if c == 0:
            return x0
        d = self.eng.decide(ge(tt, I(1)))
        if d is True:
            return v
        if self.eng.decide(eq(tt, I(0))) is True:
            return x0
        return merge_val(eq(tt, I(0)), x0, v)

    def mentions(self, v, atoms):
        if not atoms:
            return False
        ts = []
        if isinstance(v, D):
            ts = [v.t, v.nan]
        elif isinstance(v, Ptr):
            ts = [v.off, v.null]
        elif isinstance(v, Term):
            ts = [v]
        elif isinstance(v, SV):
            return any(self.mentions(y, atoms) for y in v.f.values())
        elif isinstance(v, Maybe):
            return self.mentions(v.val, atoms) or self.mentions(v.cond, atoms)
        return any(not atoms.isdisjoint(subterms_set(z)) for z in ts)

    def rec_num(self, x0, N, hv, h, others):
        """closed form for x_{t+1} = N(t, x_t)"""
        t, ta = self.t, self.ta
        eng = self.eng
        N = eng.simp(N)
        if self.mentions(N, others):
            return None
        if self.has_body_fresh(N):
            return None
        if N is hv:
            return lambda tt: x0
        if h not in subterms_set(N):
            return lambda tt: self.prev(tt, x0, N)
        d = push_sub(N, hv, h)
        if d is not None:
            if ta not in subterms_set(d):
                if hv.sort == 'I':
                    return lambda tt: x0 + mul(d, tt)
                return lambda tt: x0 + mul(to_real(tt), d)
            if hv.sort == 'I':
                # integer sums are rarely needed
                return None
            return lambda tt: x0 + sum_(I(0), tt, lambda j: subst(d, {ta: j}))
        if hv.sort == 'R':
            b = factor(N, hv, h)
            if b is not None and ta not in subterms_set(b):
                return lambda tt: mul(x0, power(b, tt))
        a = single_atom(N)
        if a is not None and a.kind == 'ite':
            c, u, v = a.args
            for w, o in ((u, v), (v, u)):
                if o is hv and h not in subterms_set(w):
                    if P.prove(eng.hyps(), eq(N, tmax(w, hv)), 5, 1):
                        return lambda tt, w=w: range_ext('maxr', I(0), tt, x0, lambda j: subst(w, {ta: j}))
                    if P.prove(eng.hyps(), eq(N, tmin(w, hv)), 5, 1):
                        return lambda tt, w=w: range_ext('minr', I(0), tt, x0, lambda j: subst(w, {ta: j}))
            g = self.guarded(a, hv, h)
            if g is not None:
                # min(x, y) taken in some iterations only; x never exceeds its initial value, so the others may take min(x, x0)
                c0, w, op = g
                return lambda tt: range_ext('maxr' if op is tmax else 'minr', I(0), tt, x0, lambda j: subst(ite(c0, w, x0), {ta: j}))
            for w, o, cc in ((u, v, c), (v, u, not_(c))):
                if o is hv and h not in subterms_set(c) and h not in subterms_set(w) and ta not in subterms_set(w):
                    # a flag: set to w in some iteration, or left alone in all of them
                    return lambda tt, w=w, cc=cc: ite(forall(tt, lambda j: not_(subst(cc, {ta: j}))), x0, w)
            if hv.sort == 'R':
                # a running minimum (maximum) of several candidates: N(x) = min(x, N(x0)) whenever x <= x0
                W = eng.simp(subst(N, {h: x0}))
                for op, c, kind in ((tmin, le, 'minr'), (tmax, ge, 'maxr')):
                    if P.prove(eng.hyps() + [c(hv, x0)], eq(N, op(hv, W)), 5, 1):
                        return lambda tt, kind=kind: range_ext(kind, I(0), tt, x0, lambda j: subst(W, {ta: j}))
        return None

    def guarded(self, a, hv, h):
        """x' = guard(t) ? ext(x, w(t)) : x"""
        paths = []

        def go(x, cs):
            b = single_atom(x)
            if x is not hv and b is not None and b.kind == 'ite':
                go(b.args[1], cs + [b.args[0]])
                go(b.args[2], cs + [not_(b.args[0])])
            else:
                paths.append((cs, x))
        go(of_atom(a), [])
        new = [(cs, x) for cs, x in paths if x is not hv]
        if len(new) != 1 or h in subterms_set(new[0][1]):
            return None
        cs, w = new[0]
        flat = P.flat([y for x in cs for y in ([not_(z) for z in x.args[0].args] if x.kind == 'not' and x.args[0].kind == 'or' else [x])])
        c0 = [c for c in flat if h not in subterms_set(c)]
        ch = [c for c in flat if h in subterms_set(c)]
        if not ch:
            return None
        hy = self.eng.hyps() + c0
        for op in (tmin, tmax):
            if P.prove(hy, eq(ite(and_(*ch), w, hv), op(w, hv)), 5, 1):
                return and_(*c0), w, op
        return None

    def has_body_fresh(self, N):
        return any(s.kind in ('var', 'vatom') and isinstance(s.args[0], str) and s.id > self.mark and '!' in s.args[0] for s in subterms_set(N))

    # ---------------------------------------------------------------- arrays
    def leaves(self, body, hk, h):
        """decompose body into [(cond, value or None)] ; None = untouched (equal to hk)"""
        out = []

        def go(x, conds):
            if x is hk:
                out.append((and_(*conds), None))
                return
            a = single_atom(x)
            if a is not None and a.kind == 'ite' and h in subterms_set(x) and h not in subterms_set(a.args[0]):
                c, u, v = a.args
                for d in (c.args if c.kind == 'or' else (c,)):
                    go(u, conds + [d])
                nc = not_(c)
                for d in (nc.args if nc.kind == 'or' else (nc,)):
                    go(v, conds + [d])
                return
            if a is not None and a.kind == 'ite' and h in subterms_set(a.args[0]):
                # a guard on the array's own old content: bring the guards that do not depend on it to the front
                c = first_guard(a)
                if c is not None:
                    u, v, nc = P.subst_ites(x, c, True), P.subst_ites(x, c, False), not_(c)
                    if u is not x and v is not x:
                        for d in (c.args if c.kind == 'or' else (c,)):
                            go(u, conds + [d])
                        for d in (nc.args if nc.kind == 'or' else (nc,)):
                            go(v, conds + [d])
                        return
            out.append((and_(*conds), x))

        def first_guard(a):
            for br in a.args[1:]:
                b = single_atom(br)
                if b is not None and b.kind == 'ite':
                    if h not in subterms_set(b.args[0]):
                        return b.args[0]
                    c = first_guard(b)
                    if c is not None:
                        return c
            return None
        go(body, [])
        return out

    def rec_array(self, a, kind, a0, N, hv, others, s0, s2, Tn):
        eng = self.eng
        t, ta = self.t, self.ta
        k = fresh('ka', 'I')
        ka = atom_of(k)
        dom = [ge(k, I(0))] + ([lt(k, a.len)] if a.len is not None else [])
        body = app(N, k)
        hk = app(hv, k)
        if N.kind == 'vop' and N.args[2].count(hv) == 1:
            # repeated application of one operator to the array itself
            rest = [x for x in N.args[2] if x is not hv] + list(N.args[1])
            if not any(hv in subterms_set(x) or self.mentions(x, others) or self.ta in subterms_set(x) for x in rest):
                return lambda tt: iterate(N, hv, a0, tt)
        # simplify under the domain
        save = eng.st
        sx = s2.copy()
        sx.pc = sx.pc + tuple(('f', d) for d in dom)
        eng.st = sx
        if hv not in subterms_set(body):
            if self.mentions(body, others):
                eng.st = save
                return None
            b2 = eng.simp(body)
            eng.st = save
            Nv = vlam_body(b2, k)
            return lambda tt: self.prev(tt, a0, Nv)
        lv = self.leaves(body, hk, hv)
        wr = [(c, v) for c, v in lv if v is not None]
        if any(self.mentions(c, others | {hv}) for c, v in lv):
            eng.st = save
            return None
        if any(self.mentions(v, others) for c, v in wr):
            eng.st = save
            return None
        hy0 = P.flat([d for d in sx.hyps()])
        # whole-range accumulation  a(k) <- a(k) + delta(t,k) on a t-independent region
        Ws = []
        ok = True
        for c, v in wr:
            if P.decide(hy0, c) is False:
                continue
            W = self.witness(c, k, hy0)
            if W is None:
                ok = False
                break
            Ws.append((c, v, W))
        if ok and Ws:
            r = self.injective(a, kind, a0, N, hv, Ws, k, s0, s2, Tn, hy0)
            eng.st = save
            if r is not None:
                return r
            eng.st = sx
        # accumulation
        if all(hv in subterms_set(v) for c, v in wr) and wr:
            f = self.rec_num(app(a0, k), body, hk, atom_of(hk), others)
            eng.st = save
            if f is not None:
                return lambda tt: vlam_body(f(tt), k)
        eng.st = save
        return None

    def witness(self, c, k, hyps):
        """W(k): the iteration that touches k, from the conjuncts of c (k on its own)"""
        ta, t = self.ta, self.t
        ka = atom_of(k)
        cs = list(c.args) if c.kind == 'and' else [c]
        cand = []
        for x in cs:
            if x.kind == 'eq0':
                p = x.args[0]
                ck, q = split_lin(p, ka)
                if ck is None or is_const(ck) is None or abs(is_const(ck)) != 1:
                    continue
                e = neg(q) if is_const(ck) == 1 else q        # k = e(t)
                cand.append(('eq', e))
            elif x.kind == 'le0':
                p = x.args[0]
                ck, q = split_lin(p, ka)
                if ck is None or is_const(ck) is None:
                    continue
                if is_const(ck) == -1:
                    cand.append(('lo', q))                        # q - k <= 0 : k >= q
                elif is_const(ck) == 1:
                    cand.append(('hi', neg(q)))                   # k <= -q
        cand.sort(key=lambda z: {'eq': 0, 'lo': 1, 'hi': 2}[z[0]])
        for kd, e in cand:
            if ta not in subterms_set(e):
                continue
            ce, b = split_lin(e, ta)
            if ce is None:
                # scatter through an injective index vector: e = vec(t)
                a = single_atom(e)
                off = I(0)
                if a is None:
                    # vec(t) + const
                    for m, cc in e.args:
                        if len(m) == 1 and m[0][0].kind == 'app' and m[0][1] == 1 and cc == 1:
                            a2 = m[0][0]
                            rest = e - of_atom(a2)
                            if ta not in subterms_set(rest):
                                a, off = a2, rest
                if a is not None and a.kind == 'app' and a.args[1] is t and a.args[0] in INVERSE:
                    return app(INVERSE[a.args[0]], k - off)
                continue
            cc = is_const(ce)
            if cc is not None:
                cc = int(cc)
                if cc > 0:
                    return k - b if cc == 1 else ediv(k - b, I(cc))
                if cc < 0 and kd == 'eq':
                    return b - k if cc == -1 else ediv(b - k, I(-cc))
                continue
            if P.decide(hyps, gt(ce, I(0))) is True and kd in ('eq', 'lo'):
                return ediv(k - b, ce)
        return None

    def injective(self, a, kind, a0, N, hv, Ws, k, s0, s2, Tn, hy0):
        eng = self.eng
        t, ta = self.t, self.ta
        ka = atom_of(k)
        base = [h for h in hy0]
        for c, v, W in Ws:
            if not P.prove(base + [c], eq(W, t), 8, 1):
                return None
        # base facts about s0 only (t-free)
        h0 = P.flat(s0.hyps() + [ge(k, I(0))] + ([lt(k, a.len)] if a.len is not None else []))
        regs = []
        for c, v, W in Ws:
            inr = and_(ge(W, I(0)), lt(W, Tn)) if Tn is not None else ge(W, I(0))
            regs.append((and_(inr, subst(c, {ta: W})), W, v, c))
        # pairwise: same witness or mutually exclusive
        for i in range(len(regs)):
            for j in range(i):
                if regs[i][1] is regs[j][1]:
                    continue
                if regs[i][2] is regs[j][2] and P.prove(h0 + [regs[i][0], regs[j][0]], eq(regs[i][1], regs[j][1]), 5, 1):
                    continue
                if not P.prove(h0 + [regs[i][0], regs[j][0]], FALSE, 5, 1):
                    return None
        Gv = fresh_vec('hv.g.' + a.name, esort(hv))

        def before(tt, j):
            """value at head of iteration tt"""
            x = app(a0, j)
            for reg, W, v, c in reversed(regs):
                rj, Wj = subst(reg, {ka: j}), subst(W, {ka: j})
                x = ite(and_(rj, lt(Wj, tt)), app(Gv, j), x)
            return x
        needs = any(hv in subterms_set(v) for c, v, W in Ws)
        vals = []
        if needs:
            At = vlam(lambda j: before(t, j), esort(hv))
            for reg, W, v, c in regs:
                v2 = subst(v, {hv: At})
                save = eng.st
                sx = save.copy()
                sx.pc = s2.pc + (('f', ge(k, I(0))),) + ((('f', lt(k, a.len)),) if a.len is not None else ()) + (('f', c),)
                eng.st = sx
                v2 = eng.simp(v2)
                eng.st = save
                vals.append(v2)
        else:
            vals = [v for reg, W, v, c in regs]
        if needs and any(Gv in subterms_set(v) for v in vals):
            return None
        vals = [v if True else v for v in vals]

        def final(tt, k=k):
            save = eng.st
            x = app(a0, k)
            for (reg, W, v, c), val in reversed(list(zip(regs, vals))):
                w = subst(val, {ta: W})
                rr = and_(reg, lt(W, tt)) if Tn is None or tt is not Tn else reg
                x = ite(rr, w, x)
            return vlam_body(x, k)
        if kind == 'a':
            self.pieces[a] = (regs, k)
        return final

    # ---------------------------------------------------------------- OpenMP
    def race(self, s0, s2, reads, wlog, mod_c, mod_a, resolved, priv, Tn, exits):
        eng = self.eng
        omp = self.omp
        node = self.node
        t, ta = self.t, self.ta
        if exits:
            eng.obl('race', FALSE, 'no early exit out of a parallel loop', node)
        # the loop variable
        lv = None
        for c in mod_c:
            if ('c', c) in priv:
                continue
            nm = c[0].name
            if self.is_loop_var(c):
                continue
            if nm in omp['reduction']:
                op = omp['reduction'][nm]
                good = accumulates(self.node, nm, op)
                eng.obl('race', FALSE if good is False else TRUE, 'reduction variable %s is only accumulated' % nm, node)
                if good is None:
                    raise Unsupported('form of the reduction over %s' % nm)
                continue
            if nm in omp['lastprivate']:
                continue
            eng.obl('race', FALSE, 'shared variable %s is not written by every thread' % nm, node)
        for a in mod_a:
            p = self.pieces.get(a)
            if p is None:
                self.race_pairs(s0, a, reads, wlog, Tn)
                continue
            eng.obl('race', TRUE, 'iterations write disjoint elements of %s' % a.name, node)
            regs, k = p
            ka = atom_of(k)
            for (o, kk, pc) in reads or ():
                if o is not a:
                    continue
                hy = [x for _, x in pc]
                if isinstance(kk, tuple):
                    _, off, n, stv = kk
                    j = fresh('rj', 'I')
                    hy = hy + [ge(j, I(0)), lt(j, n)]
                    idx = off + stv * j
                else:
                    idx = kk
                for reg, W, v, c in regs:
                    rj, Wj = subst(reg, {ka: idx}), subst(W, {ka: idx})
                    save = eng.st
                    sx = save.copy()
                    sx.pc = tuple(('f', h) for h in hy)
                    eng.st = sx
                    eng.obl('race', or_(not_(rj), eq(Wj, t)), 'no iteration reads an element of %s written by another' % a.name, node)
                    eng.st = save

    def race_pairs(self, s0, a, reads, wlog, Tn):
        """no closed form of what the loop leaves in a: compare the accesses of two different iterations directly"""
        eng, t, ta, node = self.eng, self.t, self.ta, self.node
        W = [x for x in wlog if x[0] is a]
        if not W:
            eng.obl('race', FALSE, 'iterations write disjoint elements of %s' % a.name, node)
            if eng.obls and eng.obls[-1]['cat'] == 'race':
                eng.obls[-1]['status'] = 'unknown'
            return
        u = fresh('t2', 'I')

        def acc(x, other):
            o, kk, pc = x
            hy = [h for _, h in pc]
            if isinstance(kk, tuple):
                _, off, n, stv = kk
                j = fresh('rj', 'I')
                hy, kk = hy + [ge(j, I(0)), lt(j, n)], off + stv * j
            if other:
                # everything chosen inside the iteration is chosen anew in the other one
                mp = {ta: u}
                for h in hy + [kk]:
                    for v in subterms_set(h):
                        if v.kind == 'var' and v is not ta and v not in mp and '!' in v.args[0] and (v.id > self.mark or v.args[0].startswith('hv.')):
                            mp[v] = fresh(v.args[0].rsplit('!', 1)[0], v.sort)
                hy, kk = [subst(h, mp) for h in hy], subst(kk, mp)
            return hy, kk
        for what, L in (('iterations write disjoint elements of %s', W), ('no iteration reads an element of %s written by another', [x for x in reads if x[0] is a])):
            for x in W:
                for y in L:
                    hx, kx = acc(x, False)
                    hy, ky = acc(y, True)
                    rng = [ge(u, I(0))] + ([lt(u, Tn)] if Tn is not None else []) + [ne(u, t)]
                    save = eng.st
                    sx = save.copy()
                    sx.pc = tuple(('f', h) for h in hx + hy + rng)
                    eng.st = sx
                    eng.obl('race', ne(kx, ky), what % a.name, node)
                    eng.st = save

    def is_loop_var(self, c):
        if self.inc is None:
            return False
        def find(x):
            if x.get('kind') == 'DeclRefExpr':
                return x['referencedDecl'].get('id')
            for y in x.get('inner', ()):
                r = find(y)
                if r:
                    return r
        i = find(self.inc)
        for f in self.eng.frames:
            if f.env.get(i) is c[0]:
                return True
        return False


def subst_val(v, mp):
    if isinstance(v, D):
        return D(subst(v.t, mp), subst(v.nan, mp))
    if isinstance(v, Term):
        return subst(v, mp)
    if isinstance(v, Ptr):
        return Ptr(v.obj, subst(v.off, mp), subst(v.null, mp), v.path)
    if isinstance(v, SV):
        return SV({p: subst_val(x, mp) for p, x in v.f.items()})
    if isinstance(v, Maybe):
        return Maybe(subst(v.cond, mp), subst_val(v.val, mp))
    return v


def split_lin(p, a):
    """p = coef*a + rest with coef, rest free of a -> (coef, rest) ; (None, None) otherwise"""
    coef = I(0)
    rest = I(0)
    for m, c in p.args:
        if any(a in subterms_set(x) for x, _ in m):
            hit = [(x, e) for x, e in m if a in subterms_set(x)]
            if len(hit) != 1 or hit[0][0] is not a or hit[0][1] != 1:
                return None, None
            r = const(c, p.sort)
            for x, e in m:
                if x is not a:
                    for _ in range(e):
                        r = mul(r, of_atom(x))
            coef = coef + r
        else:
            r = const(c, p.sort)
            for x, e in m:
                for _ in range(e):
                    r = mul(r, of_atom(x))
            rest = rest + r
    if is_const(coef) == 0:
        return None, None
    return coef, rest


def push_sub(N, hv, h):
    """N - hv with hv eliminated, pushing through ite; None if it stays"""
    d = N - hv
    if h not in subterms_set(d):
        return d
    a = single_atom(N)
    if a is not None and a.kind == 'ite' and h not in subterms_set(a.args[0]):
        u = push_sub(a.args[1], hv, h)
        v = push_sub(a.args[2], hv, h)
        if u is None or v is None:
            return None
        return ite(a.args[0], u, v)
    # poly with an ite atom in which h occurs
    if N.kind == 'poly':
        for m, c in N.args:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'ite' and c == 1 and h in subterms_set(m[0][0]):
                rest = N - of_atom(m[0][0])
                if h in subterms_set(rest) or is_const(rest) == 0:
                    return None
                r = push_sub(of_atom(m[0][0]), hv, h)
                return None if r is None else r + rest
    return None


def factor(N, hv, h):
    """N = b*hv with b free of hv"""
    b = R(0)
    for m, c in N.args:
        hit = [(x, e) for x, e in m if h in subterms_set(x)]
        if len(hit) != 1 or hit[0][0] is not h or hit[0][1] != 1:
            return None
        r = const(c, 'R')
        for x, e in m:
            if x is not h:
                if x.kind == 'inv':
                    r = mul(r, ipow(of_atom(x), e))
                else:
                    r = mul(r, ipow(of_atom(x), e)) if e > 0 else r
        b = b + r
    return b
