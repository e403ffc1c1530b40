"""P02: what the solver derives is written down as a chain of resolutions."""
from rules.learn import *
from rules.learn import LC
from rules import learn
import rules.clauses as CL

PR = 'napsat::proof::resolution_proof::'
DT = 'napsat::proof::dependency_tracker::'


class Kind:
    """how derivations are written down: as a proof or as dependencies"""

    def __init__(self, dep):
        self.dep = dep
        self.px = DT if dep else PR
        self.on = dict(proof=not dep, tracker=dep, observer=False, stats=False)
        self.start = 'start_tracking' if dep else 'start_resolution_chain'
        self.cancel = 'cancel_tracking' if dep else 'cancel_resolution_chain'
        self.end = 'finalize_tracking' if dep else 'finalize_resolution'
        self.add = 'add_input' if dep else 'input_clause'
        self.off = 'delete_clause' if dep else 'deactivate_clause'

    def acts(self, ev, *ops):
        """calls of the recorder: (position, operation, arguments)"""
        out = []
        for i, e in enumerate(ev):
            if e[0] == 'call' and str(e[1]).startswith(self.px):
                o = e[1][len(self.px):]
                if not ops or o in ops:
                    out.append((i, o, e[2][1:]))
        return out

    def steps(self, ev):
        """resolution steps: (position, pivot or None, clause)"""
        if self.dep:
            return [(i, None, a[0]) for i, o, a in self.acts(ev, 'track_dependency')]
        return [(i, a[0], a[1]) for i, o, a in self.acts(ev, 'link_resolution')]

    def is_step(self, s, lit, c):
        """the step resolves away `lit` (a literal of the derived clause) with clause c"""
        ok = self.dep or lit == 0 and s[1] == 0 or type(s[1]) is tuple and lit != 0 and canon(s[1]) == canon(lit)
        return ok and strip(s[2]) == strip(c)


def canon(t):
    """~~x is x"""
    t = strip(t)
    while type(t) is tuple and t[:2] == ('call', '~lit') and type(t[2]) is tuple and t[2][:2] == ('call', '~lit'):
        t = t[2][2]
    return t


def check(P, E, rep):
    R = Sol(P)
    CL.SELF = R
    K = Kind(False)
    for mode in ('CB', 'GB'):
        analysis(P, E, R, rep, mode, K)
    for mode in ('CB', 'LSCB', 'GB'):
        learning(P, E, R, rep, mode, K)
    rootlits(P, E, R, rep)
    rootconflict(P, E, R, rep)
    for mode in ('CB', 'GB'):
        purging(P, E, R, rep, mode, K)
        intake(P, E, R, rep, mode, K)
    removal(P, E, R, rep, K)
    for mode in ('CB', 'GB', 'GB-ecm'):
        rootassign(P, E, R, rep, mode)


KNOWN = DECIDED + ('cleanup_duplicate_literals',)


class Und:
    """a mismatch is certain unless something of unknown meaning is involved"""

    def __init__(self, lps):
        self.lps = lps
        self.memo = {}

    def counter(self, lv, seen=()):
        """the loop variable is a plain position"""
        if lv in seen:
            return True
        if lv not in self.memo:
            ls = [l for l in self.lps if l.own(lv)]
            ok = len(ls) == 1
            for x in ([ls[0].next(s, lv) for s, _ in ls[0].iters] if ok else []):
                if type(x) is tuple and x[0] == 'iter':
                    x = x[2]
                if type(x) is tuple and x[0] in ('+', '-') and all(type(y) is int or y == x[1] for y in x[1:]) or type(x) is tuple and x[0] == '+' and type(x[1]) is int:
                    x = x[2] if type(x[1]) is int else x[1]
                if x != lv and not (type(x) is tuple and x[:1] == ('lv',) and self.counter(x, seen + (lv,))):
                    ok = False
            self.memo[lv] = ok
        return self.memo[lv]

    def vague(self, t):
        return has(t, lambda x: len(x) > 0 and (x[0] in ('u', 'app', 'phi') or x[0] == 'r' and str(x[-1]).split('::')[-1] not in KNOWN or x[0] == 'lv' and len(x) == 3 and not self.counter(x)))

    def __call__(self, st, *ts):
        if any(self.vague(t) for t in ts):
            return None
        return None if any(has(k, lambda t: t[0] in ('app', 'u') or t[0] == 'r' and str(t[-1]).split('::')[-1] not in KNOWN and '::env::' not in str(t[-1])) for k in st.facts) else False


def desc(ss):
    return '%s' % [('' if p is None else short(p) + ' ') + short(c) for _, p, c in ss]


# ------------------------------------------------------------ analyze_conflict
def analysis(P, E, R, rep, mode, K):
    with rep.guard('recorded conflict analysis [%s]' % mode):
        gb = mode == 'GB'
        r = Run(P, E, R, rep, 'analyze_conflict_impl', cls=LC, mode=mode, pred=lambda f: ('bitset' in f.params[0]['t']) == gb, **K.on)
        j = J(rep, 'recorded conflict analysis [%s]' % mode, r.where)
        lps = loops(r)
        und = Und(lps)
        T = R.v('_trail')
        first = [l for l in lps if any(v == 1 and elem(x, buf(R)) is not None for _, ev in l.iters for x, v in marks(ev))]
        inner = [l for l in lps if any(v == 1 and clause_of(x, R) is not None for _, ev in l.iters for x, v in marks(ev))]
        ik = {l.key for l in inner}
        outer = [l for l in lps if l not in inner and any(e[0] == 'L' and e[1:] in ik for _, ev in l.iters for e in ev)]
        coll = [l for l in lps if l not in inner + outer + first and any(v == 0 and elem(x, T) is not None for _, ev in l.iters for x, v in marks(ev))]
        if len(first) != 1 or not inner or len(outer) != 1 or len(coll) != 1:
            j(None, 'every resolution is recorded', 'phases not recognised: %d %d %d %d' % (len(first), len(inner), len(outer), len(coll)))
            j.flush()
            return
        first, outer, coll = first[0], outer[0], coll[0]
        RULE, ONLY, LEFT = 'every resolution is recorded', 'only resolutions made are recorded', 'a literal left out of the clause is resolved away'
        for l in [first] + inner:
            for st, ev in l.iters:
                j(not K.steps(ev), ONLY, lambda: desc(K.steps(ev)))
        for st, ev in outer.iters:
            ss = K.steps(ev)
            res = [(y, v) for y, v in marks(ev) if v == 0]
            if not res:
                j(not ss or und(st), ONLY, lambda: desc(ss))
                continue
            il = [l for l in inner if any(e[0] == 'L' and e[1:] == l.key for e in ev)]
            if len(il) != 1 or len(res) != 1:
                j(None, RULE, '%d loops over the reason' % len(il))
                continue
            il, x = il[0], res[0][0]
            cs = {strip(clause_of(t, R)) for s, e2 in il.iters if consistent(s, st, il) for t in find((tuple(s.facts), tuple(e2)), lambda t: clause_of(t, R) is not None and il.own(t[1][2]))}
            if len(cs) != 1:
                j(None, RULE, lambda: '%s' % [short(c) for c in cs])
                continue
            c = cs.pop()
            hit = [s for s in ss if K.is_step(s, NEG(x), c)]
            j(len(hit) == 1 or K.dep and bool(hit) or und(st, *[s[2] for s in ss]), RULE, lambda: 'resolved on %s with %s, recorded %s' % (short(x), short(c), desc(ss)))
            j(len(hit) == len(ss) or und(st), ONLY, lambda: desc(ss))
        for st, ev in coll.iters:
            ss = K.steps(ev)
            xs = [x for x in elems((tuple(st.facts), tuple(ev)), T) if coll.own(elem(x, T))]
            if len(xs) != 1:
                j(None, LEFT, lambda: short_facts(st))
                continue
            x = xs[0]
            was, an = truth(st, x, 'marked'), analysed(st, x)
            put = any(isneg(v, x) for _, v in bufw(R, ev))
            if was is False or put or an is True:
                j(not ss or und(st), ONLY, lambda: desc(ss))
                continue
            if was is None or an is None:
                j(None, LEFT, lambda: short_facts(st))
                continue
            c = ('m', R.var(('call', 'napsat::Tlit::var', x), 'reason'), 0)
            j(any(K.is_step(s, NEG(x), c) for s in ss) or und(st, *[s[2] for s in ss]), LEFT, lambda: '%s recorded for %s' % (desc(ss), short(x)))
            j(all(K.is_step(s, NEG(x), c) for s in ss) and (len(ss) < 2 or K.dep) or und(st, *[s[2] for s in ss]), ONLY, lambda: desc(ss))
        ROOT = 'literals dropped at root are resolved away'
        for st, ret in r.outs:
            ev = st.cl[0]
            at = [i for i, e in enumerate(ev) if e[0] == 'L' and e[1:] == coll.key]
            if len(at) != 1:
                j(None, ROOT, '')
                continue
            j(not K.steps(ev[:at[0]]), ONLY, lambda: desc(K.steps(ev)))
            comp = [l for l in lps if any(e[0] == 'L' and e[1:] == l.key for e in ev[at[0]:]) and any(elem(strip(v), buf(R)) is not None for _, e2 in l.iters for _, v in bufw(R, e2))]
            if len(comp) != 1:
                j(None if comp or any(e[0] == 'lib' for e in ev) else True, ROOT, 'compaction not recognised')
                continue
            to = [i for i, e in enumerate(ev) if e[0] == 'L' and e[1:] == comp[0].key][0]
            seg = ev[at[0]:to]
            if K.dep:
                j(dep_root(K, R, lps, st, seg, buf(R), bsize(R)), ROOT, lambda: short_facts(st))
                continue
            cs = calls(seg, 'prove_root_literal_removal')
            j(len(cs) == 1 and strip(cs[0][0]) == buf(R) and strip(cs[0][1]) == bsize(R) or und(st, *[a for c in cs for a in c]), ROOT, lambda: '%s' % [[short(a) for a in c] for c in cs])
            w0 = [i for i, e in enumerate(ev) if e[0] == 'w' and e[1][0] == 'E' and strip(e[1][1]) == buf(R)]
            c0 = [i for i, e in enumerate(ev) if e[0] == 'call' and e[1] == 'prove_root_literal_removal']
            j(not w0 or not c0 or w0[-1] < c0[-1], ROOT, 'the clause is not complete yet')
        j.flush(RULE, ONLY, LEFT, ROOT)


def dep_root(K, R, lps, st, seg, base, size):
    und = Und(lps)

    """the dependencies of the literals at root are recorded (a loop over all of them)"""
    for l in [l for l in lps if any(e[0] == 'L' and e[1:] == l.key for e in seg)]:
        pos = {elem(x, base) for s, ev in l.iters for x in elems((tuple(s.facts), tuple(ev)), base) if l.own(elem(x, base))}
        if len(pos) != 1 or not any(K.steps(ev) for _, ev in l.iters):
            continue
        lv = pos.pop()
        x = ('m', ('E', base, lv, ''), 0)
        ok = visits(l, st, lv, size)
        for s, ev in l.iters:
            rt = root_level(s, x)
            c = ('m', R.var(('call', 'napsat::Tlit::var', x), 'reason'), 0)
            hit = any(strip(a) == strip(c) for _, _, a in K.steps(ev))
            if not hit and rt is not False:
                return und(s)
        return ok
    return und(st)


def root_level(st, x):
    """a test on the path tells whether the literal is at root"""
    r = None
    for k, v in st.facts.items():
        t = eq0(k)
        if t is not None and varfield(t) == (strip(x), 'level'):
            r = v
        elif k[0] == '<' and k[1] == 0 and varfield(k[2]) == (strip(x), 'level'):
            r = not v
        elif k[0] == '<' and k[2] == 1 and varfield(k[1]) == (strip(x), 'level'):
            r = v
    return r


# ------------------------------------------------------------ try_and_learn
def learning(P, E, R, rep, mode, K):
    with rep.guard('recorded learning [%s]' % mode):
        gb = mode == 'GB'
        r = Run(P, E, R, rep, 'try_and_learn_impl', cls=LC, mode=mode, pvec=(1,), pred=lambda f: ('bitset' in f.params[0]['t']) == gb, **K.on)
        j = J(rep, 'recorded learning [%s]' % mode, r.where)
        lps = loops(r)
        und = Und(lps)
        CF = R.v('_conflicts')
        LV = ('p', 1, '')
        fills = {}
        for l in lps:
            for st, ev in l.iters:
                for i, v in bufw(R, ev):
                    c = clause_of(strip(v), R)
                    if c is not None and l.own(strip(v)[1][2]):
                        fills[l.key] = strip(c)
        main = [l for l in lps if any(calls(ev, 'analyze_conflict') or calls(ev, 'learned_clause_is_redundant') for _, ev in l.iters) and any(has(x, lambda t: t == CF) for lv in lvars(l) for x in l.init(lv))]
        main = main or [l for l in lps if any(pushes(ev, LV) for _, ev in l.iters)]
        again = [l for l in lps if any(calls(ev, 'analyze_conflict') for _, ev in l.iters) and l not in main]
        BEGIN, STEP, END = 'a derivation starts from the conflict', 'every resolution is recorded', 'the derivation is stored with the learned clause'
        DROP = 'the derivation of a dropped clause is discarded'

        def segment(st, ev):
            """rest clauses merged into the buffer, each recorded as a resolution on the first literal"""
            at = [i for i, e in enumerate(ev) if e[0] == 'L' and e[1:] in fills and not has(fills[e[1:]], lambda t: t == CF)]
            return [(i, fills[ev[i][1:]]) for i in at]

        for l in again:
            for st, ev in l.iters:
                merged(j, K, R, st, ev, segment(st, ev), None, STEP, und)
        for st, ev in [(s, ev) for l in main for s, ev in l.iters] + [(s, s.cl[0]) for s, _ in r.outs]:
            an = [i for i, e in enumerate(ev) if e[0] == 'call' and e[1] == 'analyze_conflict' or e[0] == 'L' and any(e[1:] == l.key for l in again)]
            acts = K.acts(ev)
            if not an:
                if not any(e[0] == 'L' and any(e[1:] == l.key for l in main) for e in ev) or acts:
                    j(not acts or und(st), 'only resolutions made are recorded', lambda: '%s' % [o for _, o, _ in acts])
                continue
            fc = [fills[e[1:]] for e in ev[:an[0]] if e[0] == 'L' and e[1:] in fills and has(fills[e[1:]], lambda t: t == CF)]
            st0 = [i for i, o, a in acts if o == K.start and i < an[0]]
            ss = K.steps(ev)
            pre = [s for s in ss if s[0] < an[0]]
            j(len(st0) == 1 and not [o for i, o, a in acts if o in (K.start, K.cancel, K.end) and st0[0] < i < an[0]] or und(st), BEGIN, lambda: '%s' % [o for _, o, _ in acts])
            ok = bool(fc) and len(pre) == 1 and K.is_step(pre[0], 0, fc[0]) and bool(st0) and st0[0] < pre[0][0]
            j(ok or (None if not fc else und(st, *[s[2] for s in pre])), BEGIN, lambda: desc(pre))
            merged(j, K, R, st, ev, segment(st, ev), an[0], STEP, und)
            fin = [(i, o, a) for i, o, a in acts if o in (K.end, K.cancel) and i > an[0]]
            put = pushes(ev, LV)
            j(not [s for s in ss if fin and s[0] > fin[0][0]] or und(st), END, lambda: desc(ss))
            if put:
                v = put[-1][0]
                ids = [t for t in find(v, lambda t: t[:1] == ('r',)) if str(t[-1]).endswith('::next_clause_id')]
                ok = len(fin) == 1 and fin[0][1] == K.end and ids and strip(fin[0][2][0]) == strip(ids[0])
                j(ok or (None if not ids else und(st, *[a for _, _, x in fin for a in x[:1]])), END, lambda: '%s' % [(o, [short(x) for x in a]) for _, o, a in fin])
                if ok and not K.dep:
                    j(literals(r, R, st, ev, fin[0], v, LV), END, lambda: '%s' % [short(x) for x in fin[0][2]])
                if K.dep:
                    ad = [a for i, o, a in acts if o == 'add_learned']
                    j(bool(ids) and len(ad) == 1 and strip(ad[0][0]) == strip(ids[0]) or und(st), END, lambda: '%s' % [o for _, o, _ in acts])
            else:
                j(len(fin) == 1 and fin[0][1] == K.cancel or und(st), DROP, lambda: '%s' % [o for _, o, _ in acts])
        j.flush(BEGIN, STEP, END, DROP)


def merged(j, K, R, st, ev, segs, an, rule, und):
    """clauses merged into the buffer after the analysis are recorded as resolutions on the first literal"""
    ss = K.steps(ev)
    if an is not None:
        ss = [s for s in ss if s[0] > an]
    used = set()
    for i, c in segs:
        if an is not None and i < an:
            continue
        x, f = varfield(c)
        if x is None:
            j(None, rule, lambda: short(c))
            continue
        hit = [s for s in ss if K.is_step(s, x, c)]
        j(len(hit) == 1 or K.dep and bool(hit) or und(st, *[s[2] for s in ss]), rule, lambda: '%s for %s' % (desc(ss), short(c)))
        used |= {s[0] for s in hit}
        if f == 'missed_lower_implication' and elem(x, buf(R)) is not None:
            # the pivot is the literal as it was when the clause was chosen
            w = [k for k, e in enumerate(ev) if e[0] == 'w' and e[1][0] == 'E' and strip(e[1][1]) == buf(R)]
    odd = [s for s in ss if s[0] not in used]
    j(not odd or und(st, *[s[2] for s in odd]), 'only resolutions made are recorded', lambda: desc(odd))


def literals(r, R, st, ev, act, pushed, LV):
    """the literals given are those of the learned clause"""
    _, _, (ident, lits, n) = act
    b = lits[1] if type(lits) is tuple and lits[0] == 'iter' and lits[2] == 0 else lits
    sb, sn = strip(b), strip(n)
    if sb == buf(R):
        return eqn(('iter', buf(R), n), R, st) or (None if fuzzy(n) else False)
    if type(b) is tuple and b[0] == '&':
        if not (type(sn) is tuple and sn[:2] == ('call', 'std::size') and strip(sn[2]) == sb):
            return eqn(('iter', buf(R), n), R, st) or (None if fuzzy(n) else False)
        return None if b[1][0] != 'L' else any(x == b[1] for x in find(r.fin(st, b[1]) if False else b, lambda t: t[0] == 'L'))
    return None


# ------------------------------------------------------------ prove_root_literal_removal
def rootlits(P, E, R, rep):
    with rep.guard('removal of literals at root'):
        K = Kind(False)
        r = Run(P, E, R, rep, 'prove_root_literal_removal', cls=LC, mode='CB', **K.on)
        j = J(rep, 'removal of literals at root', r.where)
        lps = loops(r)
        und = Und(lps)
        A, n, T = r.p(0), r.p(1), R.v('_trail')
        ALL, STEP, MORE, END = 'every literal at root is looked for', 'a literal at root is resolved with its reason', 'literals the reason adds are resolved as well', 'all of them are resolved'
        first = [l for l in lps if any(v == 1 and elem(x, A) is not None for _, ev in l.iters for x, v in marks(ev))]
        inner = [l for l in lps if any(v == 1 and clause_of(x, R) is not None for _, ev in l.iters for x, v in marks(ev))]
        outer = [l for l in lps if any(K.steps(ev) for _, ev in l.iters) and l not in first + inner]
        if len(first) != 1 or len(inner) != 1 or len(outer) != 1:
            j(None, ALL, 'phases not recognised: %d %d %d' % (len(first), len(inner), len(outer)))
            j.flush()
            return
        first, inner, outer = first[0], inner[0], outer[0]
        count = [lv for lv in lvars(outer) if any(eqs(l.next(s, y), mk('+', y, 1)) and (y in outer.init(lv) or lv in l.init(y)) for l in (first, inner) for s, ev in l.iters for y in lvars(l)) and
                 any(f[0] in ('<', '==') and lv in f[1:] for s, _ in outer.iters for f in s.facts)]
        count = count[0] if len(count) == 1 else None
        for st, ev in first.iters:
            xs = [x for x in elems((tuple(st.facts), tuple(ev)), A) if first.own(elem(x, A))]
            if len(xs) != 1:
                j(None, ALL, lambda: short_facts(st))
                continue
            x = xs[0]
            rt, was, new = root_level(st, x), truth(st, x, 'marked'), (x, 1) in marks(ev)
            j(not K.steps(ev), STEP, lambda: desc(K.steps(ev)))
            if rt is False:
                j(not marks(ev), 'only literals at root are resolved away', lambda: '%s' % marks(ev))
            elif rt is None:
                j(not marks(ev) and None or und(st), 'only literals at root are resolved away', lambda: short_facts(st))
            else:
                j(new or was is True or und(st), ALL, lambda: short_facts(st))
            if count is not None:
                tally(j, first, st, new, was, rt, count, outer, END)
        pos = {elem(x, A) for s, ev in first.iters for x in elems((tuple(s.facts), tuple(ev)), A) if first.own(elem(x, A))}
        for st, ret in r.outs:
            if any(e[0] == 'L' and e[1:] == first.key for e in st.cl[0]):
                j(visits(first, st, next(iter(pos)), n) if len(pos) == 1 else None, ALL, lambda: short_facts(st))
        for st, ev in inner.iters:
            xs = {strip(t) for t in find((tuple(st.facts), tuple(ev)), lambda t: clause_of(t, R) is not None and inner.own(t[1][2]))}
            if len(xs) != 1:
                j(None, MORE, lambda: short_facts(st))
                continue
            x = xs.pop()
            new, was = (x, 1) in marks(ev), truth(st, x, 'marked')
            j(new or was is True or und(st), MORE, lambda: short_facts(st))
            j(not K.steps(ev), STEP, lambda: desc(K.steps(ev)))
            if count is not None:
                tally(j, inner, st, new, was, True, count, outer, END)
        # walking down the trail to the last marked literal
        skip = [l for l in lps if l not in (first, inner, outer)]
        for st, ev in outer.iters:
            ss = K.steps(ev)
            res = [x for x, v in marks(ev) if v == 0]
            if len(ss) != 1 or len(res) != 1:
                if not ss and not res:
                    xs = [x for x in elems((tuple(st.facts), tuple(ev)), T)]
                    j(any(truth(st, x, 'marked') is False for x in xs) or und(st), STEP, lambda: short_facts(st))
                else:
                    j(und(st), STEP, lambda: '%s, marks removed %s' % (desc(ss), [short(x) for x in res]))
                continue
            x = res[0]
            c = ('m', R.var(('call', 'napsat::Tlit::var', x), 'reason'), 0)
            j(elem(x, T) is not None and K.is_step(ss[0], NEG(x), c) or und(st, ss[0][2], ss[0][1]), STEP, lambda: '%s for %s' % (desc(ss), short(x)))
            j(truth(st, x, 'marked') is True or und(st), STEP, lambda: short_facts(st))
            il = any(e[0] == 'L' and e[1:] == inner.key for e in ev)
            cs = {strip(clause_of(t, R)) for s, e2 in inner.iters for t in find((tuple(s.facts), tuple(e2)), lambda t: clause_of(t, R) is not None and inner.own(t[1][2]))}
            iv = {t[1][2] for s, e2 in inner.iters for t in find((tuple(s.facts), tuple(e2)), lambda t: clause_of(t, R) is not None and inner.own(t[1][2]))}
            j(il and cs == {strip(c)} or (None if il and len(cs) != 1 else und(st)), MORE, lambda: '%s' % [short(y) for y in cs])
            if il and len(iv) == 1:
                j(visits(inner, st, next(iter(iv)), csize(R, c), 1), MORE, lambda: short_facts(st))
                j(exactly(inner, next(iter(iv)), 1), MORE, lambda: 'starts at %s' % [short(y) for y in inner.init(next(iter(iv)))])
            if count is not None:
                cur = [y for y in lvars(inner) if count in inner.init(y) or y in outer.init(count)]
                t = outer.next(st, count)
                want = {mk('+', y, -1) for y in cur} | {mk('-', y, 1) for y in cur}
                j(any(eqs(t, w) for w in want) or (None if fuzzy(t, tuple(cur)) else False), END, lambda: short(t))
            # the position
            ix = elem(x, T)
            desc_ok = descending(r, lps, outer, skip, ix, st, T)
            j(desc_ok, 'the last literal is resolved first', lambda: short(ix))
        for st, ret in r.outs:
            if count is None:
                j(None, END, 'counter not recognised')
                continue
            fs = [(strip(f), v) for f, v in st.facts.items() if f[0] in ('<', '==') and count in f]
            if not any(e[0] == 'L' and e[1:] == outer.key for e in st.cl[0]):
                continue
            more = [k for k in range(1, 6) if all(evt(f, {strip(count): k}) is None or bool(evt(f, {strip(count): k})) == v for f, v in fs)]
            j(not more if fs else None, END, lambda: 'may stop with %s left' % more)
        j.flush(ALL, STEP, MORE, END, 'the last literal is resolved first')


def tally(j, l, st, new, was, rt, count, outer, rule):
    cur = [y for y in lvars(l) if y in outer.init(count) or count in l.init(y)]
    grow = new and was is False and rt
    if not cur:
        # the loop leaves the counter alone
        j(not grow or und(st), rule, lambda: 'not counted: ' + short_facts(st))
        return
    if len(cur) != 1:
        j(None, rule, 'counter not found')
        return
    cur = cur[0]
    n = l.next(st, cur)
    if new and was is None:
        j(und(st), rule, lambda: short_facts(st))
        return
    want = mk('+', cur, 1) if grow else cur
    j(eqs(n, want) or (None if fuzzy(n, (cur,)) else False), rule, lambda: '%s for %s' % (short(n), short_facts(st)))


def descending(r, lps, outer, skip, ix, st, T):
    """the position only goes down, one literal at a time past unmarked ones"""
    sz = strip(('call', 'std::size', T))
    lv = [y for y in lvs(ix)]
    if len(lv) != 1:
        return None
    lv = lv[0]
    own = [l for l in lps if l.own(lv)]
    if len(own) != 1:
        return None
    own = own[0]
    off = evt(strip(ix), {strip(lv): 10})
    if off is None:
        return None
    off -= 10
    for s, ev in own.iters:
        if own is outer:
            break
        d = stepof(own, s, lv)
        if d is None:
            return None
        xs = [x for x in elems((tuple(s.facts), tuple(ev)), T)]
        if d != -1 or not any(truth(s, x, 'marked') is False for x in xs):
            return False if not opaque(s) else None
    # where it starts
    start = set()
    todo, seen = {(own.key, lv)}, set()
    while todo:
        k, y = todo.pop()
        if (k, y) in seen:
            continue
        seen.add((k, y))
        l = [l for l in lps if l.key == k][0]
        for x in l.init(y):
            o = [(q.key, x) for q in lps if q.own(x)]
            if o:
                todo.add(o[0])
            else:
                start.add(x)
    for x in start:
        v = evt(strip(x), {sz: 9})
        if v is None:
            return None
        if v + off < 8 and not any(a < 0 for a in (0,)):
            # a walk that decrements before looking starts at the size
            if v + off != 8:
                return False
    return True


# ------------------------------------------------------------ root_level_conflict
def rootconflict(P, E, R, rep):
    with rep.guard('conflict at root'):
        K = Kind(False)
        r = Run(P, E, R, rep, 'root_level_conflict', cls=LC, mode='CB', **K.on)
        und = Und(loops(r))
        j = J(rep, 'conflict at root', r.where)
        RULE, NO = 'the empty clause is derived from a conflict at root', 'no clause is derived without a conflict at root'
        for st, ret in r.outs:
            ev = st.cl[0]
            unsat = [e for e in ev if e[0] == 'w' and e[1] == R.f('_status')]
            acts = K.acts(ev)
            if not unsat:
                j(not acts or und(st), NO, lambda: '%s' % [o for _, o, _ in acts])
                continue
            cs = {strip(t[3]) for f in st.facts for t in find(f, lambda t: t[0] == 'call' and str(t[1]).split('::')[-1] == 'clause_level') if len(t) > 3}
            cs = cs or {strip(s[2]) for s in K.steps(ev)}
            ss = K.steps(ev)
            names = [o for _, o, _ in acts]
            ok = names[:3] == [K.start, 'link_resolution', K.end] and K.is_step(ss[0], 0, next(iter(cs))) and len(ss) == 1 and len(cs) == 1
            j(ok or und(st, *[s[2] for s in ss]), RULE, lambda: '%s %s' % (names, desc(ss)))
            if not ok:
                continue
            c = next(iter(cs))
            rm = [(i, e[2]) for i, e in enumerate(ev) if e[0] == 'call' and e[1] == 'prove_root_literal_removal']
            good = len(rm) == 1 and acts[1][0] < rm[0][0] < acts[2][0] and strip(rm[0][1][0]) == strip(lits_of(R, c)) and strip(rm[0][1][1]) == strip(csize(R, c))
            j(good or und(st, *[a for _, x in rm for a in x]), RULE, lambda: '%s' % [[short(a) for a in x] for _, x in rm])
            fin = acts[2][2]
            j(fin[2] == 0 or (None if fuzzy(fin[2]) else False), RULE, lambda: 'derived clause of size %s' % short(fin[2]))
            j(strip(fin[0]) == strip(('call', 'std::size', R.v('_clauses'))) or strip(fin[0]) == UNDEFC or None, 'its identifier is not that of a clause in use', lambda: short(fin[0]))
            j(names[3:] == [K.off] and strip(acts[3][2][0]) == strip(fin[0]) or strip(fin[0]) == UNDEFC or und(st), 'its identifier is not that of a clause in use', lambda: '%s' % names)
        j.flush(RULE)


# ------------------------------------------------------------ purge_clauses
def purging(P, E, R, rep, mode, K):
    with rep.guard('shortened clauses [%s]' % mode):
        r = Run(P, E, R, rep, 'purge_clauses', cls=LC, mode=mode, **K.on)
        j = J(rep, 'shortened clauses [%s]' % mode, r.where)
        lps = loops(r)
        und = Und(lps)
        RULE, NO = 'a shortened clause is derived from the longer one', 'a clause left as it is is not derived again'
        main = [l for l in lps if any(any(e[0] == 'w' and e[1][0] == 'F' and e[1][2].endswith('TSclause::size') for e in ev) for _, ev in l.iters)]
        mk_ = {l.key for l in main}
        main = [l for l in main if not any(l2 is not l and any(e[0] == 'L' and e[1:] == l.key for _, ev in l2.iters for e in ev) for l2 in main)]
        if len(main) != 1:
            j(None, RULE, '%d loops shorten clauses' % len(main))
            j.flush()
            return
        main = main[0]
        for st, ev in main.iters:
            acts = K.acts(ev)
            sw = [(i, e) for i, e in enumerate(ev) if e[0] == 'w' and e[1][0] == 'F' and e[1][2].endswith('TSclause::size')]
            if not sw or calls(ev, 'delete_clause'):
                again = [f for f in st.facts if has(f, lambda t: t[0] == 'F' and str(t[2]).endswith('TSclause::deleted'))]
                j(not acts or len(again) > 1 or und(st), NO, lambda: '%s' % [o for _, o, _ in acts])
                continue
            loc = sw[-1][1][1]
            cl = loc[1][1][2] if loc[1][0] == '&' else None
            old, new = ('m', loc, 0), sw[-1][1][2]
            # the clause is as long as before
            eq = [v for f, v in st.facts.items() if f[0] == '==' and len(f) == 3 and {strip(f[1]), strip(f[2])} == {strip(old), strip(new)} or
                  f[0] == '==' and len(f) == 3 and difference(f, old, new)]
            same_ = eq[-1] if eq else None
            if same_ is True:
                j(not acts or und(st), NO, lambda: '%s' % [o for _, o, _ in acts])
                continue
            if not acts:
                j(und(st) if same_ is False or not eq else None, RULE, lambda: short_facts(st))
                continue
            L = lits_of(R, cl)
            if K.dep:
                continue
            names = [o for _, o, _ in acts]
            ss = K.steps(ev)
            ok = names == [K.start, 'link_resolution', K.off, K.end] and K.is_step(ss[0], 0, cl) and strip(acts[2][2][0]) == strip(cl)
            j(ok or und(st, *[s[2] for s in ss]), RULE, lambda: '%s %s' % (names, desc(ss)))
            if not ok:
                continue
            rm = [(i, e[2]) for i, e in enumerate(ev) if e[0] == 'call' and e[1] == 'prove_root_literal_removal']
            good = None
            if len(rm) == 1 and acts[1][0] < rm[0][0] < acts[3][0]:
                p, n = rm[0][1]
                good = strip(p) == strip(('iter', L, new)) and sub_ok(n, old, new) or strip(p) == strip(L) and strip(n) == strip(old)
                good = good or und(st, p, n)
            else:
                good = und(st)
            j(good, RULE, lambda: 'removed %s of %s' % ([[short(a) for a in x] for _, x in rm], short(old)))
            fin = acts[3][2]
            j(strip(fin[0]) == strip(cl) and strip(fin[1]) == strip(L) and strip(fin[2]) == strip(new) or und(st, *fin), RULE, lambda: '%s' % [short(x) for x in fin])
        j.flush(RULE, NO)


def sub_ok(n, old, new):
    """n is old - new"""
    o, w = strip(old), strip(new)
    syms = [y for y in lvs(new)]
    for a in (9, 6):
        env = {o: a}
        for b in (2, 4):
            for y in syms:
                env[strip(y)] = b
            nv, dv = evt(w, env), evt(strip(n), env)
            if nv is None or dv is None or dv != a - nv:
                return False
    return True


def difference(f, old, new):
    """an equation equivalent to old == new"""
    o, w = strip(old), strip(new)
    syms = [strip(y) for y in lvs(new)]
    if len(syms) != 1 or not has(strip(f), lambda t: t == o) or not has(strip(f), lambda t: t == syms[0]):
        return False
    for a in range(2, 8):
        for b in range(2, 8):
            env = {o: a, syms[0]: b}
            v, nv = evt(strip(f), env), evt(w, env)
            if v is None or nv is None or bool(v) != (nv == a):
                return False
    return True


# ------------------------------------------------------------ internal_add_clause
class IC(LC):
    keepfacts = True


def intake(P, E, R, rep, mode, K):
    with rep.guard('recorded clauses [%s]' % mode):
        r = Run(P, E, R, rep, 'internal_add_clause', cls=IC, mode=mode, **K.on)
        j = J(rep, 'recorded clauses [%s]' % mode, r.where)
        inp, n = r.p(0), r.p(1)
        learned, ext, given = r.p(2), r.p(3), r.p(4)
        lps = loops(r)
        und = Und(lps)
        jj = J(spec_null(), 'x', r.where)
        counts, flags = CL.scan(jj, R, r, lps, inp, n)
        IN, NOT, ROOT, OFF = 'an input clause is recorded with the literals given', 'a clause that is not an input is not recorded as one', 'literals of an input clause dropped at root are resolved away', 'a discarded clause gives its identifier back'
        for st, ret in r.outs:
            ev = st.cl[0]
            acts = K.acts(ev)
            names = [o for _, o, _ in acts]
            ins = [a for _, o, a in acts if o == K.add]
            isext = known(st, ext)
            if ret == UNDEFC or holds(st, mk('==', ret, UNDEFC)):
                j(not ins or und(st), NOT, lambda: '%s' % names)
                undef = holds(st, mk('==', given, UNDEFC))
                off = [a for _, o, a in acts if o == K.off]
                if undef is True:
                    j(not off or und(st), OFF, lambda: '%s' % names)
                elif undef is False:
                    j(len(off) == 1 and strip(off[0][0]) == strip(given) and names == [K.off] or und(st), OFF, lambda: '%s %s' % (names, short_facts(st)))
                else:
                    j(None, OFF, lambda: short_facts(st))
                continue
            if isext is False:
                j(not acts or und(st), NOT, lambda: '%s' % names)
                continue
            if isext is None:
                for v in (True, False):
                    pass
                j(None if not acts else und(st), NOT, lambda: short_facts(st))
                continue
            j(K.off not in names and (len(ins) == 1 or und(st)), IN, lambda: '%s' % names)
            if len(ins) != 1:
                continue
            a = ins[0]
            ok = strip(a[0]) == strip(ret) and (K.dep or strip(a[1]) == strip(inp) and strip(a[2]) == strip(n))
            j(ok or und(st, *a), IN, lambda: '%s' % [short(x) for x in a])
            j(before(ev, K), 'a clause is recorded before anything is derived from it', lambda: '%s' % [e[1] for e in ev if e[0] == 'call'])
            none = [v for f, v in st.facts.items() if eq0(f) in counts] + [not v for f, v in st.facts.items() if f[0] == '<' and f[1] == 0 and f[2] in counts]
            none = True if True in none else none[-1] if none else None
            if K.dep:
                continue
            rm = [(i, a) for i, o, a in acts if o == 'remove_root_literals']
            at = [i for i, o, _ in acts if o == K.add][0]
            if rm:
                j(len(rm) == 1 and strip(rm[0][1][0]) == strip(ret) and rm[0][0] > at or und(st), ROOT, lambda: '%s' % names)
            elif none is True:
                j(True, ROOT)
            else:
                z = leq(st, n, 0) or holds(st, mk('==', n, 0))
                j(True if z else und(st) if counts else None, ROOT, lambda: short_facts(st))
        j.flush(IN, NOT, ROOT, OFF)


def before(ev, K):
    """the clause is recorded before the solver uses it"""
    at = [i for i, e in enumerate(ev) if e[0] == 'call' and str(e[1]).startswith(K.px)]
    use = [i for i, e in enumerate(ev) if e[0] == 'call' and e[1] in ('imply_literal', 'reimply_literal', 'reimply_literal_root', 'repair_conflicts')]
    return not at or not use or at[-1] < use[0]


def known(st, t):
    """truth of a boolean parameter on the path"""
    r = None
    for f, v in st.facts.items():
        if eq0(f) is not None and strip(eq0(f)) == strip(t):
            r = not v
        elif strip(f) == strip(t):
            r = v
    return r


def spec_null():
    class N:
        def __getattr__(self, n):
            return lambda *a, **k: None
    return N()


# ------------------------------------------------------------ delete_clause
def removal(P, E, R, rep, K):
    with rep.guard('deleted clauses'):
        r = Run(P, E, R, rep, 'delete_clause', cls=LC, mode='CB', **K.on)
        und = Und(loops(r))
        j = J(rep, 'deleted clauses', r.where)
        RULE = 'the identifier of a deleted clause is given back'
        for st, ret in r.outs:
            acts = K.acts(st.cl[0])
            gone = pushes(st.cl[0], R.v('_deleted_clauses'))
            if not gone:
                j(not acts or und(st), RULE, lambda: '%s' % acts)
                continue
            j(len(acts) == 1 and acts[0][1] == K.off and strip(acts[0][2][0]) == strip(r.p(0)) or und(st), RULE, lambda: '%s' % [(o, [short(x) for x in a]) for _, o, a in acts])
        j.flush(RULE)


# ------------------------------------------------------------ literals reaching root
def rootassign(P, E, R, rep, mode):
    K = Kind(False)
    RULE, ONLY = 'a literal reaching root is recorded with its reason', 'only literals at root are recorded'
    for fn in ('imply_literal', 'reimply_literal_root', 'reimply_literal', 'eager_decision_reimplication'):
        if fn == 'eager_decision_reimplication' and mode != 'GB-ecm':
            continue
        with rep.guard('%s at root [%s]' % (fn, mode)):
            r = Run(P, E, R, rep, fn, cls=LC, mode=mode, **K.on)
            und = Und(loops(r))
            j = J(rep, '%s at root [%s]' % (fn, mode), r.where)
            segs = [(st, st.cl[0]) for st, _ in r.outs] + [(st, ev) for l in loops(r) for st, ev in l.iters]
            any_ = False
            for st, ev in segs:
                ra = [(i, a) for i, o, a in K.acts(ev, 'root_assign')]
                lev = {}
                for i, e in enumerate(ev):
                    if e[0] == 'w' and e[1][0] == 'F' and e[1][2].endswith('TSvar::level'):
                        x, _ = varfield(('m', e[1], 0))
                        if x is not None:
                            lev[x] = (i, e[2])
                for i, a in ra:
                    x = strip(a[0])
                    if x not in lev:
                        j(root_level(st, x) is True or und(st, a[0]), ONLY, lambda: short(a[0]))
                for x, (i, v) in lev.items():
                    rt = 0 == v if type(v) is int else zero(st, v)
                    was = waszero(st, x, v)
                    mine = [a for k, a in ra if strip(a[0]) == x]
                    if rt is False:
                        j(not mine or und(st), ONLY, lambda: '%s at level %s' % (short(x), short(v)))
                        continue
                    any_ = True
                    if was is True:
                        continue
                    if rt is None and not mine:
                        j(nonroot(st, v) or und(st), RULE, lambda: 'level %s: %s' % (short(v), short_facts(st)[-400:]))
                        continue
                    j(len(mine) == 1 and reason_ok(r, R, st, ev, x, v, mine[0][1]) or und(st, *[y for a in mine for y in a]), RULE, lambda: '%s recorded with %s' % (short(x), [[short(y) for y in a] for a in mine]))
            j.flush(*([RULE] if any_ else []))


def zero(st, v):
    r = None
    for f, b in st.facts.items():
        t = eq0(f)
        if t is not None and strip(t) == strip(v):
            r = b
        elif f[0] == '<' and f[1] == 0 and strip(f[2]) == strip(v):
            r = not b
    return r


def nonroot(st, v):
    """the value cannot be the root level"""
    v = strip(v)
    if type(v) is tuple and v[0] == '+' and any(type(x) is int and x > 0 for x in v[1:]):
        return True
    if type(v) is tuple and v[0] in ('+', '-'):
        # one level less than a level above the undone decision
        return True
    # unchanged
    for f, b in st.facts.items():
        if f[0] == '==' and b and strip(v) in (strip(f[1]), strip(f[2])):
            o = [y for y in f[1:] if strip(y) != v]
            if o and any(varfield(t)[1] == 'level' for t in find(o[0], lambda t: t[0] == 'm')):
                return True
    return False


def waszero(st, x, v):
    for f, b in st.facts.items():
        t = eq0(f)
        if t is not None and b and varfield(t) == (x, 'level') and strip(t) != strip(v):
            return True
    return None


def reason_ok(r, R, st, ev, x, v, c):
    """c is the reason of x when the path ends, or the clause its level was computed from"""
    w = [e[2] for e in ev if e[0] == 'w' and e[1][0] == 'F' and e[1][2].endswith('TSvar::reason') and varfield(('m', e[1], 0))[0] == x]
    if w:
        return strip(w[-1]) == strip(c)
    return varfield(c) == (x, 'reason')
