"""S06: learned clauses follow from the clauses in use; a conflict is repaired by undoing part of it."""
from rules.solver import *
from rules.clauses import eq0, short_facts, NMS, UND_, TRUE_, FALSE_
from rules.purge import lvs, lits_of, xn
from nslib.spec import *

QUIET = frozenset(('F', REC + '::' + n) for n in ('_proof', '_dependency_tracker', '_sentinel', '_statistics', '_options'))


DECIDED = ('analyze_conflict', 'next_clause_id', 'learned_clause_is_redundant', 'conflict_can_generate_learned_clause', 'conflict_is_UIP_cut', 'choose_backtracked_level',
           'implication_active_after_backtrack', 'update_bt_after_analysis_of_reimplication', 'level_repair', 'compute_repair_level')


def opaque(st):
    """a test on the path depends on something whose meaning is not known here"""
    return any(has(k, lambda t: t[0] in ('app', 'u') or t[0] == 'r' and str(t[-1]).split('::')[-1] not in DECIDED) for k in st.facts)


class LC(SC):
    keepfacts = True
    keeplocals = True
    stable = QUIET
    pvec = ()               # vector parameters whose changes are recorded

    def vecq(self, a):
        if type(a) is tuple and a[:1] == ('p',) and a[1] in self.pvec:
            return a
        return SC.vecq(self, a)

    def elt(self, eng, a):
        return 'element' if a[0] == 'p' else SC.elt(self, eng, a)

    def vroot(self, a):
        return None if a[0] == 'p' else SC.vroot(self, a)


def check(P, E, rep):
    R = Sol(P)
    for mode in ('CB', 'GB'):
        analysis(P, E, R, rep, mode)
    for mode in ('CB', 'LSCB', 'GB'):
        learning(P, E, R, rep, mode)
    required(P, E, R, rep)
    redundant(P, E, R, rep)
    subsumed(P, E, R, rep)
    repair(P, E, R, rep)
    eligible(P, E, R, rep)
    lazy_level(P, E, R, rep)
    reimplied(P, E, R, rep)
    undo(P, E, R, rep)


# ------------------------------------------------------------ what a path knows about a literal
def varfield(t):
    """(literal, field) of a read of the variable record"""
    if type(t) is tuple and t[:1] == ('m',) and t[1][0] == 'F' and '::TSvar::' in str(t[1][2]):
        x = t[1][1]
        if type(x) is tuple and x[0] == '&' and x[1][0] == 'E':
            v = x[1][2]
            if type(v) is tuple and v[:2] == ('call', 'napsat::Tlit::var'):
                return strip(v[2]), t[1][2].split('::')[-1]
    return None, None


def truth(st, x, fld):
    """truth of a boolean field of the variable of literal x (the latest test on the path)"""
    x, r = strip(x), None
    for k, v in st.facts.items():
        t = eq0(k)
        l, f = varfield(t) if t is not None else (None, None)
        if f == fld and l == x:
            r = not v
        elif k[0] == '==' and 1 in k[1:]:
            for y in k[1:]:
                l, f = varfield(y)
                if f == fld and l == x:
                    r = v
    return r


def undefd(st, x, fld):
    """a clause field of the variable of x is CLAUSE_UNDEF"""
    x, r = strip(x), None
    for k, v in st.facts.items():
        if k[0] == '==' and UNDEFC in k[1:]:
            for y in k[1:]:
                l, f = varfield(y)
                if f == fld and l == x:
                    r = v
    return r


def analysed(st, x):
    x, r = strip(x), None
    for k, v in st.facts.items():
        if k[0] == '==' and len(k) == 3:
            for a, b in (k[1:], k[:0:-1]):
                l, f = varfield(a)
                if f == 'level' and l == x and has(b, lambda t: t[0] in ('p', 'L', 'lv') or t[0] == '&') or f == 'level' and l == x and type(b) is tuple:
                    r = v
        t = eq0(k)
        if type(t) is tuple and t[0] == 'call' and str(t[1]).endswith('::has_intersection') and has(t, lambda y: y[0] == 'F' and str(y[2]).endswith('TSvar::chunks') and
                                                                                                    has(y, lambda z: z[:2] == ('call', 'napsat::Tlit::var') and strip(z[2]) == x)):
            r = not v
    return r


def marks(ev):
    out = []
    for e in ev:
        if e[0] == 'w' and e[1][0] == 'F' and e[1][2].endswith('TSvar::marked'):
            l, f = varfield(('m', e[1], 0))
            out.append((l, e[2]))
    return out


def elem(t, base):
    """index if t is the element of a vector or array"""
    if type(t) is tuple and t[0] == 'm' and t[1][0] == 'E' and strip(t[1][1]) == strip(base):
        return t[1][2]
    return None


def elems(ts, base):
    return {strip(x) for x in find(ts, lambda t: t[0] == 'm' and t[1][0] == 'E' and strip(t[1][1]) == strip(base))}


def clause_of(t, R):
    """clause whose literal array t indexes"""
    if type(t) is tuple and t[0] == 'm' and t[1][0] == 'E':
        a = t[1][1]
        if type(a) is tuple and a[0] == 'm' and a[1][0] == 'F' and a[1][2].endswith('TSclause::lits'):
            e = a[1][1]
            if e[0] == '&' and e[1][0] == 'E' and e[1][1] == R.v('_clauses'):
                return e[1][2]
    return None


NEG = lambda x: ('call', '~lit', x)


def isneg(t, x):
    t = strip(t)
    return type(t) is tuple and t[:2] == ('call', '~lit') and t[2] == strip(x)


def buf(R):
    return ('m', R.f('_lit_buffer'), 0)


def bufw(R, ev):
    """writes to the literal buffer: (index, value)"""
    return [(e[1][2], e[2]) for e in ev if e[0] == 'w' and e[1][0] == 'E' and strip(e[1][1]) == buf(R)]


def sizew(R, ev):
    return [e[2] for e in ev if e[0] == 'w' and e[1] == R.f('_lit_buffer_size')]


def bsize(R):
    return ('m', R.f('_lit_buffer_size'), 0)


def und(st, *ts):
    return None if opaque(st) or any(fuzzy(t) for t in ts) else False


# ------------------------------------------------------------ analyze_conflict
def analysis(P, E, R, rep, mode):
    with rep.guard('conflict analysis [%s]' % mode):
        gb = mode == 'GB'
        r = Run(P, E, R, rep, 'analyze_conflict_impl', cls=LC, mode=mode, proof=False, tracker=False, observer=False, stats=False, pred=lambda f: ('bitset' in f.params[0]['t']) == gb)
        j = J(rep, 'conflict analysis [%s]' % mode, r.where)
        lps = loops(r)
        T = R.v('_trail')
        count = None
        first = [l for l in lps if any(v == 1 and elem(x, buf(R)) is not None for _, ev in l.iters for x, v in marks(ev))]
        inner = [l for l in lps if any(v == 1 and clause_of(x, R) is not None for _, ev in l.iters for x, v in marks(ev))]
        ik = {l.key for l in inner}
        outer = [l for l in lps if l not in inner and any(e[0] == 'L' and e[1:] in ik for _, ev in l.iters for e in ev)]
        coll = [l for l in lps if l not in inner + outer + first and any(v == 0 and elem(x, T) is not None for _, ev in l.iters for x, v in marks(ev))]
        if len(first) == 1 and inner and len(outer) == 1 and not coll:
            rest = [l for l in lps if l not in inner + outer + first]
            took = any(v == 0 for l in rest for _, ev in l.iters for x, v in marks(ev)) or any(e[0] in ('call', 'lib') and e[1] not in ('bump_var_activity', 'lit_is_required_in_learned_clause') for l in rest for _, ev in l.iters for e in ev)
            j(None if took or not any(bufw(R, ev) for l in rest for _, ev in l.iters) else False, 'the marks of what is left are taken back', 'the literals collected stay marked')
            j.flush()
            return
        if len(first) != 1 or not inner or len(outer) != 1 or len(coll) != 1:
            j(None, 'analysis resolves from the conflict clause', 'phases not recognised: %d %d %d %d' % (len(first), len(inner), len(outer), len(coll)))
            j.flush()
            return
        first, outer, coll = first[0], outer[0], coll[0]
        # how many marked literals are left to resolve: the variable the resolution loop waits for
        walk_ = {y for st, ev in outer.iters for t in find((tuple(st.facts), tuple(ev)), lambda t: elem(t, T) is not None) for y in lvs(elem(t, T))}
        cand = [lv for lv in lvars(outer) if lv not in walk_ and any(f[0] in ('<', '==') and lv in f[1:] and any(type(y) is int for y in f[1:]) for st, _ in outer.iters for f in st.facts)]
        count = cand[0] if len(cand) == 1 else None
        # the conflict clause
        for st, ev in first.iters:
            xs = elems((tuple(st.facts), tuple(ev)), buf(R))
            xs = [x for x in xs if first.own(elem(x, buf(R)))]
            if len(xs) != 1:
                j(None, 'every literal of the conflict is marked', lambda: short_facts(st))
                continue
            x = xs[0]
            new = (x, 1) in marks(ev)
            was = truth(st, x, 'marked')
            j(new or was is True or und(st), 'every literal of the conflict is marked', lambda: short_facts(st))
            if count is not None:
                counting(j, first, st, x, was, new, count, outer)
        for st, ret in r.outs:
            pos = {elem(x, buf(R)) for s, ev in first.iters for x, v in marks(ev) if elem(x, buf(R)) is not None}
            j(visits(first, st, next(iter(pos)), bsize(R)) if len(pos) == 1 else None, 'every literal of the conflict is marked', lambda: short_facts(st))
        # one resolution
        for l in inner:
            for st, ev in l.iters:
                xs = [x for x in find((tuple(st.facts), tuple(ev)), lambda t: clause_of(t, R) is not None and l.own(t[1][2]))]
                xs = {strip(x) for x in xs}
                if len(xs) != 1:
                    j(None, 'a resolution adds the other literals of the reason', lambda: short_facts(st))
                    continue
                x = xs.pop()
                new, was = (x, 1) in marks(ev), truth(st, x, 'marked')
                j(new or was is True or und(st), 'a resolution adds the other literals of the reason', lambda: short_facts(st))
                j(not any(v == 0 for _, v in marks(ev)), 'a resolution adds the other literals of the reason', lambda: '%s' % [short(x) for x in ev])
                if count is not None:
                    counting(j, l, st, x, was, new, count, outer)
        for st, ev in outer.iters:
            xs = elems((tuple(st.facts), tuple(ev)), T)
            xs = [x for x in xs if any(outer.own(y) for y in lvs(x))]
            if len(xs) != 1:
                j(None, 'only a marked literal is resolved', lambda: short_facts(st))
                continue
            x = xs[0]
            idx = elem(x, T)
            res = [(y, v) for y, v in marks(ev) if v == 0]
            pv = [y for y in lvs(idx) if outer.own(y)][0]
            sz = strip(('call', 'std::size', T))
            a, b = {strip(pv): 5, sz: 9}, evt(strip(outer.next(st, pv)), {strip(pv): 5, sz: 9})
            cur = evt(strip(idx), a)
            nxt = evt(strip(idx), {strip(pv): b, sz: 9}) if b is not None else None
            ini = {evt(strip(idx), {strip(pv): evt(strip(i), {sz: 9}), sz: 9}) for i in outer.init(pv)}
            j(None if None in ini else ini == {8}, 'every later literal was looked at before', lambda: '%s' % [short(i) for i in outer.init(pv)])
            was, an = truth(st, x, 'marked'), analysed(st, x)
            if not res:
                j(not marks(ev), 'a resolution adds the other literals of the reason', lambda: '%s' % marks(ev))
                free = was is False or an is False or undefd(st, x, 'reason') is True and undefd(st, x, 'missed_lower_implication') is not False
                j(free or und(st), 'a literal of the conflict level with a reason is resolved', lambda: short_facts(st))
                j(None if nxt is None else nxt in (cur - 1, 8), 'every later literal was looked at before', lambda: short(outer.next(st, pv)))
                if count is not None:
                    j(eqs(outer.next(st, count), count) or und(st, outer.next(st, count)), 'literals of the conflict level are counted', lambda: short(outer.next(st, count)))
                continue
            j(len(res) == 1 and res[0][0] == x, 'only a marked literal is resolved', lambda: '%s' % res)
            j(was is True or und(st), 'only a marked literal is resolved', lambda: short_facts(st))
            j(an is True or und(st), 'only a literal of the conflict level is resolved', lambda: short_facts(st))
            il = [l for l in inner if any(e[0] == 'L' and e[1:] == l.key for e in ev)]
            if len(il) != 1:
                j(None if il else und(st), 'a resolution adds the other literals of the reason', lambda: '%d loops over the reason' % len(il))
                continue
            il = il[0]
            cs = {strip(clause_of(t, R)) for s, e2 in il.iters if consistent(s, st, il) for t in find((tuple(s.facts), tuple(e2)), lambda t: clause_of(t, R) is not None and il.own(t[1][2]))}
            if len(cs) != 1:
                j(None, 'a literal is resolved with a clause implying it', lambda: '%s' % [short(c) for c in cs])
                continue
            c = cs.pop()
            fld = varfield(c)[1]
            j(fld in ('reason', 'missed_lower_implication'), 'a literal is resolved with a clause implying it', lambda: short(c))
            u = undefd(st, x, fld)
            if u is None and fld == 'reason':
                u = False if undefd(st, x, 'missed_lower_implication') is True and any(varfield(eqarg(k))[1] == 'reason' for k in st.facts) else None
            j(u is False or (None if u is None else False), 'a literal is resolved with a clause implying it', lambda: short_facts(st))
            iv = {t[1][2] for s, e2 in il.iters for t in find((tuple(s.facts), tuple(e2)), lambda t: clause_of(t, R) is not None and il.own(t[1][2]))}
            j(visits(il, st, next(iter(iv)), csize(R, c), 1) if len(iv) == 1 else None, 'a resolution adds the other literals of the reason', lambda: short_facts(st))
            j(None if nxt is None else nxt == 8 or nxt == cur - 1 and fld == 'reason', 'every later literal was looked at before', lambda: short(outer.next(st, pv)))
            if count is not None:
                n = outer.next(st, count)
                ic = counter(il, count, outer)
                want = mk('+', ic, -1) if ic is not None else None
                j(None if ic is None else eqs(n, want) or (None if fuzzy(n, (ic,)) else False), 'literals of the conflict level are counted', lambda: short(n))
        # it ends when one is left
        for st, ret in r.outs:
            if count is None:
                j(None, 'one literal of the conflict level is left', 'counter not recognised')
                continue
            fs = [(strip(f), v) for f, v in st.facts.items() if f[0] in ('<', '==') and count in f]
            if not fs:
                j(None, 'one literal of the conflict level is left', lambda: short_facts(st))
                continue
            more = [n for n in range(2, 7) if all(evt(f, {strip(count): n}) is None or bool(evt(f, {strip(count): n})) == v for f, v in fs)]
            j(not more, 'one literal of the conflict level is left', lambda: 'may stop with %s left' % more)
        # the literals left are collected
        ulv = set()
        for st, ev in coll.iters:
            xs = [x for x in elems((tuple(st.facts), tuple(ev)), T) if coll.own(elem(x, T))]
            if len(xs) != 1:
                j(None, 'the marked literals make the clause', lambda: short_facts(st))
                continue
            x = xs[0]
            was, an = truth(st, x, 'marked'), analysed(st, x)
            w, s = bufw(R, ev), sizew(R, ev)
            if was is False:
                j(not w and not s and not [m for m in marks(ev) if m[1] != 0], 'only marked literals enter the clause', lambda: '%s' % [short(e) for e in w])
                continue
            if was is None:
                j(None, 'only marked literals enter the clause', lambda: short_facts(st))
                continue
            j((x, 0) in marks(ev) or und(st), 'the marks are removed', lambda: short_facts(st))
            put = any(isneg(v, x) for _, v in w)
            u = [(lv, strip(coll.next(st, lv)) == x) for lv in lvars(coll) if strip(coll.next(st, lv)) == x or isneg(coll.next(st, lv), x)]
            if an is True:
                j(bool(u) or put or und(st), 'the marked literals make the clause', lambda: short_facts(st))
                ulv |= set(u)
                continue
            if an is None:
                j(None, 'the marked literals make the clause', lambda: short_facts(st))
                continue
            if put:
                ok = len(w) == 1 and s and eqs(s[-1], mk('+', w[0][0], 1)) and strip(w[0][0]) == bsize(R)
                j(ok or (None if fuzzy(w[0][0]) or len(s) != 1 else False), 'the marked literals make the clause', lambda: '%s %s' % ([(short(a), short(b)) for a, b in w], [short(y) for y in s]))
            else:
                req = [v for f, v in st.facts.items() if eq0(f) is not None and is_pure(eq0(f), 'lit_is_required_in_learned_clause', coll_x(eq0(f))) and strip(eq0(f)[3]) == x]
                j(bool(req) and req[-1] or und(st), 'a literal is left out only if implied by the others', lambda: short_facts(st))
        for st, ret in r.outs:
            pos = {elem(x, T) for s, ev in coll.iters for x in elems((tuple(s.facts), tuple(ev)), T) if coll.own(elem(x, T))}
            j(visits(coll, st, next(iter(pos)), ('call', 'std::size', T)) if len(pos) == 1 else None, 'the marked literals make the clause', lambda: short_facts(st))
            ev = st.cl[0]
            at = [i for i, e in enumerate(ev) if e[0] == 'L' and e[1:] == coll.key]
            if len(at) != 1:
                j(None, 'the literal of the conflict level comes first', '')
                continue
            s0, w1 = sizew(R, ev[:at[0]]), bufw(R, ev[at[0]:])
            if ulv:
                j((s0[-1] == 1 if s0 and type(s0[-1]) is int else None), 'the literal of the conflict level comes first', lambda: 'size %s before' % [short(x) for x in s0])
                z = [v for i, v in w1 if i == 0]
                j(bool(z) and any(isneg(z[-1], lv) if plain else z[-1] == lv for lv, plain in ulv) or (None if z and fuzzy(z[-1], tuple(lv for lv, _ in ulv)) else False), 'the literal of the conflict level comes first', lambda: '%s' % [(short(a), short(b)) for a, b in w1])
            else:
                j(None, 'the literal of the conflict level comes first', '')
            rootgone(j, R, r, lps, st, ev[at[0]:])
        j.flush('every literal of the conflict is marked', 'a literal is resolved with a clause implying it', 'a literal is left out only if implied by the others', 'only literals false at root level are dropped', 'literals of the conflict level are counted')


def eqarg(k):
    if k[0] == '==' and UNDEFC in k[1:]:
        return [x for x in k[1:] if x != UNDEFC][0]
    return None


def coll_x(t):
    return t[3] if type(t) is tuple and len(t) > 3 else None


def counter(l, count, outer):
    """the variable of loop l that stands for the counter"""
    c = [y for y in lvars(l) if y in outer.init(count) or count in l.init(y)]
    return c[0] if len(c) == 1 else None


def counting(j, l, st, x, was, new, count, outer):
    """the counter grows exactly by the newly marked literals of the conflict level"""
    cur = counter(l, count, outer)
    if cur is None:
        ini = outer.init(count)
        none = not any(e[0] == 'L' and e[1:] == l.key for s2, ev in outer.iters for e in ev) and ini and all(type(x) is int for x in ini)
        j(False if none else None, 'literals of the conflict level are counted', 'they are not counted when resolution begins' if none else 'counter not found')
        return
    n = l.next(st, cur)
    an = analysed(st, x)
    want = {mk('+', cur, 1) if new and not w and a else cur for w in ((True, False) if was is None else (was,)) for a in ((True, False) if an is None else (an,))}
    if len(want) > 1:
        # the path does not tell the cases apart
        ok = None if not (eqs(n, cur) or eqs(n, mk('+', cur, 1))) else und(st)
        j(ok, 'literals of the conflict level are counted', lambda: '%s for %s' % (short(n), short_facts(st)))
        return
    want = want.pop()
    j(eqs(n, want) or (None if fuzzy(n, (cur,)) else False), 'literals of the conflict level are counted', lambda: '%s for %s' % (short(n), short_facts(st)))


def rootgone(j, R, r, lps, st, ev):
    """the compaction behind the collection: dropped exactly at root"""
    rule = 'only literals false at root level are dropped'
    ls = [l for l in lps if any(e[0] == 'L' and e[1:] == l.key for e in ev) and any(elem(v, buf(R)) is not None for _, e2 in l.iters for _, v in bufw(R, e2))]
    if len(ls) != 1:
        s = sizew(R, ev)
        j(None if s or any(e[0] == 'lib' for e in ev) else True, rule, 'compaction not recognised')
        return
    l = ls[0]
    kv = pv = None
    for s, e2 in l.iters:
        xs = [x for x in elems((tuple(s.facts), tuple(e2)), buf(R)) if l.own(elem(x, buf(R)))]
        w = bufw(R, e2)
        if w:
            kv, pv = w[-1][0], elem(strip(w[-1][1]), buf(R))
    for s, e2 in l.iters:
        w = bufw(R, e2)
        x = ('m', ('E', buf(R), pv, ''), 0)
        root = None
        for k, v in s.facts.items():
            t = eq0(k)
            if t is not None and varfield(t) == (strip(x), 'level'):
                root = v
            elif k[0] == '<' and k[1] == 0 and varfield(k[2]) == (strip(x), 'level'):
                root = not v
        if w:
            j(strip(w[-1][1]) == strip(x) and len(w) == 1 and w[-1][0] == kv or und(s, w[-1][1]), rule, lambda: short(w[-1][1]))
            j(l.own(kv) and eqs(l.next(s, kv), mk('+', kv, 1)) or und(s), rule, lambda: short(l.next(s, kv)))
        else:
            j(root is True or und(s), rule, lambda: short_facts(s))
            j(l.own(kv) and eqs(l.next(s, kv), kv) or und(s), rule, lambda: short(l.next(s, kv)))
    j(visits(l, st, pv, bsize(R)), rule, lambda: short_facts(st))
    j({0} == l.init(kv) or None, rule, lambda: '%s' % l.init(kv))
    s = sizew(R, ev)
    j(bool(s) and s[-1] == kv or (None if s and fuzzy(s[-1], (kv,)) else False), rule, lambda: '%s' % [short(x) for x in s])


# ------------------------------------------------------------ loops that establish something for all literals of a clause
def said(l, s, e):
    """everything an iteration tests, does or computes"""
    return (tuple(s.facts), tuple(e), tuple(l.next(s, y) for y in lvars(l)))


def all_lits(r, R, st, C, good, lo=0, why=None):
    """on this path `good` was established for every literal of clause C from position lo: True / False / None"""
    L = strip(lits_of(R, C))
    lps = loops(r)
    best = None
    for l in lps:
        pos = {t[1][2] for s, e in l.iters for t in find(said(l, s, e), lambda t: t[0] == 'm' and t[1][0] == 'E' and strip(t[1][1]) == L and l.own(t[1][2]))}
        if len(pos) != 1:
            continue
        lv = pos.pop()
        if not any(has(f, lambda t: t == lv) for f in st.facts):
            continue
        v = visits(l, st, lv, csize(R, C), lo)
        v = every(l, st, lv, ('m', ('E', L, lv, ''), 0), good, v)
        if v:
            return True
        if v is False:
            best = False
    if best is None and not any(has(f, lambda t: strip(t) == L) for f in st.facts):
        return False if not opaque(st) else None
    return best


def every(l, st, lv, x, good, seen):
    """every iteration of l either establishes good(x) or sets a variable to a value the path excludes"""
    if good(st, x) is False:
        return False
    if seen is None:
        return None
    out = seen
    for s, e in l.iters:
        if not consistent(s, st, l):
            continue
        g = good(s, x)
        flags = [y for y in lvars(l) if y != lv]
        shut = [y for y in flags if excluded(st, y, l.next(s, y), x)]
        if g is True:
            continue
        if not shut:
            if g is None and opaque(s):
                out = None if out else out
            else:
                return False
        elif not any(latched(l, st, y, x) for y in shut):
            # a flag raised is lowered again
            return False if not opaque(s) else None
    return out


def badvals(st, y):
    """values of a flag the path excludes"""
    return [n for n in (0, 1) if any(has(f, lambda t: t == y) and evt(strip(f), {strip(y): n}) not in (None, v) for f, v in st.facts.items())]


def latched(l, st, y, x):
    """once variable y has a value the path excludes, it keeps one"""
    bad = badvals(st, y)
    for s, e in l.iters:
        if not consistent(s, st, l):
            continue
        for n in bad:
            if any(evt(strip(f), {strip(y): n}) not in (None, v) for f, v in s.facts.items() if has(f, lambda t: t == y)):
                continue
            t = l.next(s, y)
            m = {strip(('m', ('F', ('&', ('E', v, ('call', 'napsat::Tlit::var', x), '')), 'napsat::NapSAT::TSvar::marked'), 0)) for v in {t[1][1][1][1] for t in find(t, lambda t: varfield(t)[1] == 'marked')}}
            was = truth(s, x, 'marked')
            for k in ((0, 1) if was is None else (int(was),)):
                if evt(strip(t), {strip(y): n, **{q: k for q in m}}) not in bad:
                    return False
    return True


def excluded(st, y, val, x):
    """the path is impossible if variable y got this value in an iteration whose literal x is not marked"""
    mk_ = {strip(('m', ('F', ('&', ('E', v, ('call', 'napsat::Tlit::var', x), '')), 'napsat::NapSAT::TSvar::marked'), 0)): 0 for v in {t[1][1][1][1] for t in find(val, lambda t: varfield(t)[1] == 'marked')}}
    vals = {evt(strip(val), {**mk_, strip(y): k}) for k in (0, 1)}
    for n in vals:
        if n is None:
            return False
        if not any(has(f, lambda t: t == y) and evt(strip(f), {strip(y): n}) not in (None, v) for f, v in st.facts.items()):
            return False
    return True


def consistent(s, st, l):
    """the iteration can happen on the path (facts about other things agree)"""
    for f, v in s.facts.items():
        if f in st.facts and st.facts[f] != v and not any(l.own(x) for x in lvs(f)):
            return False
    return True


def marked_good(st, x):
    return truth(st, x, 'marked')


# ------------------------------------------------------------ lit_is_required_in_learned_clause
def required(P, E, R, rep):
    with rep.guard('literals implied by others'):
        r = Run(P, E, R, rep, 'lit_is_required_in_learned_clause', cls=LC, proof=False, tracker=False, observer=False, stats=False)
        j = J(rep, 'literals implied by others', r.where)
        x = r.p(0)
        C = ('m', R.var(('call', 'napsat::Tlit::var', x), 'reason'), 0)
        for s0, ret in r.outs:
            for st in ([s0] if type(ret) is int else split(s0, mk('==', ret, 0))):
                v = bool(ret) if type(ret) is int else holds(st, mk('==', ret, 0)) is False
                if v:
                    j(True, 'a literal is left out only if implied by the others')
                    continue
                u = undefd(st, x, 'reason')
                j(u is False or unassigned(st, x) or (None if opaque(st) else False), 'a decision is never left out', lambda: short_facts(st))
                if unassigned(st, x):
                    continue
                j(all_lits(r, R, st, C, marked_good, 1), 'a literal is left out only if implied by the others', lambda: short_facts(st))
        j.flush('a literal is left out only if implied by the others', 'a decision is never left out')


def unassigned(st, x):
    for k, v in st.facts.items():
        if k[0] == '==' and 2 in k[1:] and v:
            for y in k[1:]:
                if varfield(y) == (strip(x), 'state'):
                    return True
    return False


# ------------------------------------------------------------ learned_clause_is_redundant, clause_subsumed_in_formula
def redundant(P, E, R, rep):
    for mode in ('CB', 'GB'):
        with rep.guard('redundant learned clauses [%s]' % mode):
            r = Run(P, E, R, rep, 'learned_clause_is_redundant', cls=LC, mode=mode, proof=False, tracker=False, observer=False, stats=False)
            j = J(rep, 'redundant learned clauses [%s]' % mode, r.where)
            rule = 'a learned clause is dropped only if a clause in use subsumes it'
            for s0, ret in r.outs:
                for st in ([s0] if type(ret) is int else split(s0, mk('==', ret, 0))):
                    v = bool(ret) if type(ret) is int else holds(st, mk('==', ret, 0)) is False
                    if not v:
                        j(True, rule)
                        continue
                    ok = None
                    for f, val in st.facts.items():
                        t = eqarg(f)
                        if t is not None and is_pure(t, 'clause_subsumed_in_formula') and not val:
                            ok = strip(t[3]) == buf(R) and strip(t[4]) == bsize(R) or und(st, *t[3:])
                    cs = {strip(t[1][2]) for f in st.facts for t in find(f, lambda t: t[0] == '&' and t[1][0] == 'E' and t[1][1] == R.v('_clauses'))}
                    res = [all_lits(r, R, st, c, marked_good) for c in cs]
                    j(ok or True in res or (None if None in res or ok is None and not cs and opaque(st) else False), rule, lambda: short_facts(st))
            j.flush(rule)
    with rep.guard('search for a subsuming clause'):
        r = Run(P, E, R, rep, 'clause_subsumed_in_formula', cls=LC, mode='GB', proof=False, tracker=False, observer=False, stats=False)
        j = J(rep, 'search for a subsuming clause', r.where)
        rule = 'a clause found has only literals of the learned clause'
        lps = loops(r)
        todo, done = {ret for _, ret in r.outs}, set()
        while todo:
            t = todo.pop()
            if t in done or type(t) is int or t is None:
                continue
            done.add(t)
            if type(t) is tuple and t[0] == 'lv':
                for l in lps:
                    if l.own(t):
                        todo |= set(l.init(t)) | {l.next(s, t) for s, _ in l.iters}
        good = lambda s, x: marked_good(s, x)
        states = [(st, ret) for st, ret in r.outs] + [(s, l.next(s, lv)) for l in lps for lv in lvars(l) if lv in done for s, _ in l.iters]
        for st, v in states:
            if type(v) is int or type(v) is not tuple or v[0] == 'lv':
                continue
            sv = strip(v)
            if not (sv[0] == 'm' and sv[1][0] == 'F' and sv[1][2].endswith('TSwatch::cl')):
                j(None, rule, lambda: short(v))
                continue
            ent = sv[1][1]
            binl = has(ent, lambda t: t == R.f('_binary_watches'))
            blk = ('m', ('F', ent, REC + '::TSwatch::block'), 0)
            bufl = find(ent, lambda t: t[0] == 'm' and t[1][0] == 'E' and t[1][1] == r.p(0))
            if binl:
                j(truth(st, blk, 'marked') is True and bool(bufl) or und(st), rule, lambda: short_facts(st))
            else:
                j(all_lits(r, R, st, sv, good), rule, lambda: short_facts(st))
        j.flush(rule)


# ------------------------------------------------------------ compute_subsumed_clauses
def subsumed(P, E, R, rep):
    with rep.guard('learned clauses subsuming each other'):
        r = Run(P, E, R, rep, 'compute_subsumed_clauses', cls=LC, proof=False, tracker=False, observer=False, stats=False)
        j = J(rep, 'learned clauses subsuming each other', r.where)
        rule = 'a learned clause is dropped only for a kept one with fewer literals'
        lps = loops(r)
        seen = False
        A = ('p', 0, '')
        for l in lps:
            for st, ev in l.iters:
                for n, e in enumerate(ev):
                    if e[0] == 'w' and e[1][0] == 'E' and strip(e[1][1]) == ('p', 1, '') and e[2] != 0:
                        seen = True
                        i = strip(e[1][2])
                        # the clause that subsumes it
                        js = {strip(t[1][2]) if t[0] == 'm' else strip(t[2]) for t in find(tuple(st.facts), lambda t: t[0] == 'E' and strip(t[1]) == A)} - {i}
                        res = []
                        for k in js:
                            vs = {strip(t[1][1]) for q in lps for s, e2 in q.iters for t in find(said(q, s, e2), lambda t: t[0] == 'm' and t[1][0] == 'E' and has(t[1][1], lambda y: y[0] == 'E' and strip(y[1]) == A and strip(y[2]) == k))}
                            ok = [vec_all(lps, st, v) for v in vs]
                            later = [strip(x) for q in lps if q.own(k) for x in q.init(k)]
                            order = bool(later) and all(evt(x, {i: 3}) is not None and evt(x, {i: 3}) > 3 for x in later) and all(stepof(q, s, k) in (0, 1) for q in lps if q.own(k) for s, _ in q.iters)
                            apart = order or any(f[0] == '==' and not v and {strip(f[1]), strip(f[2])} == {i, k} for f, v in st.facts.items())
                            res.append((flag0(st, R, k) is False, True in ok, apart))
                        j(any(all(x) for x in res) or und(st), rule, lambda: '%s %s' % (res, short_facts(st)))
                        marking(j, lps, ev, i, A)
        if not seen:
            j(None, rule, 'no write of a flag seen')
        j.flush(rule)


def isflag(t):
    """index of the flag a term reads"""
    t = strip(t)
    if type(t) is tuple and t[0] == 'call' and str(t[1]).endswith('operator bool'):
        t = t[2]
        t = ('m', t[1], 0) if type(t) is tuple and t[0] == '&' else t
    return t[1][2] if type(t) is tuple and t[0] == 'm' and t[1][0] == 'E' and strip(t[1][1]) == ('p', 1, '') else None


def flag0(st, R, i):
    r = None
    for k, v in st.facts.items():
        t = eq0(k)
        if t is not None and isflag(t) == i:
            r = not v
    return r


# ------------------------------------------------------------ try_and_learn
def learning(P, E, R, rep, mode):
    with rep.guard('learning [%s]' % mode):
        gb = mode == 'GB'
        r = Run(P, E, R, rep, 'try_and_learn_impl', cls=LC, mode=mode, pvec=(1,), proof=False, tracker=False, observer=False, stats=False, pred=lambda f: ('bitset' in f.params[0]['t']) == gb)
        j = J(rep, 'learning [%s]' % mode, r.where)
        lps = loops(r)
        CF = R.v('_conflicts')
        LV = ('p', 1, '')
        # loops that put literals of a clause into the buffer
        fills = {}
        for l in lps:
            for st, ev in l.iters:
                for i, v in bufw(R, ev):
                    c = clause_of(strip(v), R)
                    if c is not None and l.own(strip(v)[1][2]):
                        fills.setdefault(l.key, (l, c, strip(v)[1][2]))
                        s = sizew(R, ev)
                        ok = strip(i) == bsize(R) and len(s) == 1 and eqs(s[0], mk('+', i, 1))
                        j(ok or (None if fuzzy(i) else False), 'literals are appended one by one', lambda: '%s, size %s' % (short(i), [short(x) for x in s]))
        for k, (l, c, lv) in fills.items():
            for st, ev in l.iters:
                j(any(clause_of(strip(v), R) is not None for _, v in bufw(R, ev)) or und(st), 'literals are appended one by one', lambda: short_facts(st))
        main = [l for l in lps if any(calls(ev, 'analyze_conflict') or calls(ev, 'learned_clause_is_redundant') for _, ev in l.iters) and any(has(x, lambda t: t == CF) for lv in lvars(l) for x in l.init(lv))]
        main = main or [l for l in lps if any(pushes(ev, LV) for _, ev in l.iters)]
        again = [l for l in lps if any(calls(ev, 'analyze_conflict') for _, ev in l.iters) and l not in main]
        # the conflict goes into the buffer before it is analysed
        for st, ev in [(s, ev) for l in main for s, ev in l.iters] + [(s, s.cl[0]) for s, _ in r.outs]:
            an = [i for i, e in enumerate(ev) if e[0] == 'call' and e[1] == 'analyze_conflict' or e[0] == 'L' and any(e[1:] == l.key for l in again)]
            put = pushes(ev, LV)
            red = [i for i, e in enumerate(ev) if e[0] == 'call' and e[1] == 'learned_clause_is_redundant']
            if an:
                fs = [fills[e[1:]] for e in ev[:an[0]] if e[0] == 'L' and e[1:] in fills]
                fs = [f for f in fs if has(f[1], lambda t: t == CF)]
                j(len(fs) == 1 and visits(fs[0][0], st, fs[0][2], csize(R, fs[0][1]), 0) if fs else und(st), 'analysis starts with all literals of the conflict', lambda: short_facts(st))
            if put:
                v = put[-1][0]
                cl = vec_of(v)
                ids = [t for t in find(v, lambda t: t[:1] == ('r',)) if str(t[-1]).endswith('::next_clause_id')]
                j(len(put) == 1 and bool(ids) or und(st), 'a learned clause gets a new identifier', lambda: short(v))
                ok = cl is not None and strip(cl[0]) == buf(R) and eqn(cl[1], R, st)
                j(ok or (None if cl is None or fuzzy(cl[1]) else False), 'the learned clause is the result of the analysis', lambda: short(v))
                n = calls(ev, 'next_clause_id')
                j(len(n) == 1 and eqn(('iter', buf(R), n[0][0]), R, st) or (None if n and fuzzy(n[0][0]) else False), 'a learned clause gets a new identifier', lambda: '%s' % n)
                j(bool(an) or und(st), 'the learned clause is the result of the analysis', 'not analysed')
                for e in ev[an[-1] + 1:] if an else []:
                    if e[0] == 'lib' and 'sort' in str(e[1]):
                        sorted_by(j, P, R, E, e)
                odd = [e for e in ev[an[-1] + 1:] if e[0] == 'w' and e[1][0] == 'E' and strip(e[1][1]) == buf(R)] if an else []
                j(not odd, 'the learned clause is the result of the analysis', lambda: '%s' % [short(e[1]) for e in odd])
            elif an and (st, ev) not in [(s, s.cl[0]) for s, _ in r.outs]:
                # analysed but not learned: known to be redundant
                rr = [v for f, v in st.facts.items() if eq0(f) is not None and type(eq0(f)) is tuple and eq0(f)[0] == 'r' and str(eq0(f)[-1]).endswith('::learned_clause_is_redundant')]
                ok = bool(rr) and not rr[-1]
                if not ok:
                    ok = same_learned(r, R, lps, st, LV)
                j(ok if ok is not False else und(st), 'a learned clause is dropped only as redundant', lambda: short_facts(st))
            if an and not any(e[0] == 'w' and e[1] == R.f('_status') for e in ev):
                s = sizew(R, ev)
                j(bool(s) and s[-1] == 0 or und(st), 'the next conflict starts from an empty buffer', lambda: '%s' % [short(x) for x in s])
            if red:
                on = [l for l in lps if any(e[0] == 'L' and e[1:] == l.key for e in ev[:red[0]]) and any(v == 1 for _, e2 in l.iters for _, v in marks(e2))]
                j(bool(on) and all_buf(R, on[-1], st, 1) or und(st), 'the literals are marked for the comparison', lambda: short_facts(st))
                off = [l for l in lps if any(e[0] == 'L' and e[1:] == l.key for e in ev[red[0]:]) and any(v == 0 for _, e2 in l.iters for _, v in marks(e2))]
                j(bool(off) and all_buf(R, off[-1], st, 0) or und(st), 'the marks are removed', lambda: short_facts(st))
        # replacing the first literal by a clause that implies its negation
        for l in again:
            for st, ev in l.iters:
                fs = [fills[e[1:]] for e in ev if e[0] == 'L' and e[1:] in fills]
                fs = [f for f in fs if not has(f[1], lambda t: t == CF)]
                if not calls(ev, 'analyze_conflict'):
                    continue
                if len(fs) != 1:
                    j(und(st) if not fs else None, 'the first literal is replaced by the rest of a clause implying it', lambda: short_facts(st))
                    continue
                fl, c, lv = fs[0]
                x, f = varfield(c)
                j(x is not None and elem(x, buf(R)) == 0 and f == 'missed_lower_implication' or (None if fuzzy(c) else False), 'the first literal is replaced by the rest of a clause implying it', lambda: short(c))
                j(undefd(st, x, f) is False or und(st), 'the first literal is replaced by the rest of a clause implying it', lambda: short_facts(st))
                j(visits(fl, st, lv, csize(R, c), 1), 'the first literal is replaced by the rest of a clause implying it', lambda: short_facts(st))
                j(exactly(fl, lv, 1), 'the first literal is replaced by the rest of a clause implying it', lambda: 'starts at %s' % [short(x) for x in fl.init(lv)])
                at = [i for i, e in enumerate(ev) if e[0] == 'L' and e[1:] == fl.key][-1]
                w, s = bufw(R, ev[at:]), sizew(R, ev[at:])
                ok = len(w) == 1 and w[0][0] == 0 and len(s) == 1 and elem(strip(w[0][1]), buf(R)) is not None and strip(elem(w[0][1], buf(R))) == strip(s[0]) == strip(mk('+', bsize(R), -1))
                j(ok or (None if any(e[0] == 'lib' for e in ev) else False), 'the first literal is replaced by the rest of a clause implying it', lambda: '%s %s' % ([(short(a), short(b)) for a, b in w], [short(y) for y in s]))
        j.flush('analysis starts with all literals of the conflict', 'the learned clause is the result of the analysis', 'a learned clause is dropped only as redundant')


def sorted_by(j, P, R, E, e):
    """the literals of a learned clause are ordered by decreasing utility"""
    rule = 'the literal to be implied comes first in the learned clause'
    args = e[2]
    lam = [t for t in args if type(t) is tuple and t[:1] == ('lambda',)]
    f = P.funcs.get(lam[0][1]) if lam else None
    if f is None:
        j(None, rule, 'comparison not recognised')
        return
    r = Run(P, E, R, None, 'cmp', func=f, cls=LC, mode='CB', proof=False, tracker=False, observer=False, stats=False)
    H = [('call', REC + '::utility_heuristic', ('this',), r.p(k)) for k in (0, 1)]
    down = set()
    for a, b in ((3, 1), (1, 3), (2, 2)):
        for st, ret in r.outs:
            env = {H[0]: a, H[1]: b}
            if any(evt(strip(g), env) is not None and bool(evt(strip(g), env)) != v for g, v in st.facts.items()):
                continue
            v = evt(strip(ret), env)
            down.add(None if v is None else bool(v) == (a > b))
    j(None if None in down else down == {True}, rule, lambda: '%s' % [short(ret) for _, ret in r.outs])


def exactly(l, lv, lo):
    """an ascending loop starts at position lo and not before; anything else is left open"""
    steps = {stepof(l, s, lv) for s, _ in l.iters} - {0}
    if steps == {1} and all(type(x) is int for x in l.init(lv)):
        return l.init(lv) == {lo}
    return True


def vec_of(v):
    """(begin, end) a vector in the term was built from"""
    for t in find(v, lambda t: t[0] in ('ctor', 'obj') and 'vector' in str(t[1])):
        if len(t) >= 4:
            b, e = t[2], t[3]
            b = b[1] if type(b) is tuple and b[0] == 'iter' and b[2] == 0 else b
            return b, e
    return None


def eqn(e, R, st):
    """e is the end of the buffer (its size on this path)"""
    if type(e) is tuple and e[0] == 'iter' and strip(e[1]) == buf(R):
        n = e[2]
        if strip(n) == bsize(R):
            return True
        if type(n) is int:
            return any(f[0] == '==' and v and n in f[1:] and any(strip(x) == bsize(R) for x in f[1:]) for f, v in st.facts.items()) or any(e[0] == 'w' and e[1] == R.f('_lit_buffer_size') and e[2] == n for e in st.cl[0]) or \
                n == 0
    if type(e) is tuple and e[0] == '+' and any(strip(x) == buf(R) for x in e[1:]) and any(strip(x) == bsize(R) for x in e[1:]):
        return True
    return False


def all_buf(R, l, st, val):
    """the loop sets the mark of every literal of the buffer"""
    pos = {elem(x, buf(R)) for s, e in l.iters for x, v in marks(e) if v == val and elem(x, buf(R)) is not None}
    if len(pos) != 1:
        return None
    lv = pos.pop()
    for s, e in l.iters:
        if not any(v == val and elem(x, buf(R)) == lv for x, v in marks(e)):
            return False if not opaque(s) else None
    b = bsize(R)
    bounds = [b] + [n for n in (0,) if any(f[0] in ('<', '==') and lv in f[1:] and n in f[1:] for f in st.facts)]
    if len(bounds) > 1:
        return True
    return visits(l, st, lv, b)


def vec_all(lps, st, vec, same=None):
    """on this path every literal of the vector was found marked: True / False / None"""
    best = False
    bnd = strip(('call', 'std::size', vec))
    for l in lps:
        for lv in lvars(l):
            xs = {strip(t) for s, e in l.iters for t in find(said(l, s, e), lambda t: t[0] == 'm' and t[1][0] == 'E' and t[1][2] == lv and strip(t[1][1]) == vec)}
            if len(xs) != 1 or not any(has(f, lambda t: t == lv) for f in st.facts):
                continue
            v = every(l, st, lv, xs.pop(), marked_good, visits(l, st, lv, bnd))
            if v:
                return True
            if v is None:
                best = None
    return best


def same_learned(r, R, lps, st, LV):
    """the path found an earlier learned clause all of whose literals are marked"""
    vs = {strip(t[1][1]) for l in lps for s, e in l.iters for t in find(said(l, s, e), lambda t: t[0] == 'm' and t[1][0] == 'E' and has(t[1][1], lambda y: y == LV) and varless(t))}
    res = [vec_all(lps, st, v) for v in vs]
    return True if True in res else None if None in res else False


def varless(t):
    return strip(t[1][1]) != ('p', 1, '')


def marking(j, lps, ev, i, A):
    """the marks a comparison relies on: exactly the literals of clause i, and none left behind"""
    rule = 'the marks compare one learned clause at a time'

    def places(q, val):
        return [x for s, e2 in q.iters for x, v in marks(e2) if v == val]
    own = lambda x: has(x, lambda y: y[0] == 'E' and strip(y[1]) == A and strip(y[2]) == i)
    on = [q for q in lps if any(e[0] == 'L' and e[1:] == q.key for e in ev) and places(q, 1)]
    if not on or not all(x is not None for q in on for x in places(q, 1)):
        j(None, rule, 'marking not recognised')
        return
    # the loop that goes from one clause to the next
    for l in lps:
        if not l.own(i):
            continue
        for s, e2 in l.iters:
            at = [n for n, e in enumerate(e2) if e[0] == 'L' and any(e[1:] == q.key for q in on)]
            if not at:
                continue
            xs = [x for q in on for x in places(q, 1)]
            j(all(own(x) for x in xs), rule, lambda: '%s' % [short(x) for x in xs])
            off = [q for q in lps if any(e[0] == 'L' and e[1:] == q.key for e in e2[at[-1] + 1:]) and places(q, 0)]
            xs2 = [x for q in off for x in places(q, 0)]
            j(any(own(x) for x in xs2) or (None if any(x is None for x in xs2) else und(s)), rule, lambda: 'marks left behind when %s' % short_facts(s))


# ------------------------------------------------------------ fix_conflicts_and_learned_in_order
def repair(P, E, R, rep):
    for mode in ('CB', 'GB'):
        with rep.guard('using what was learned [%s]' % mode):
            r = Run(P, E, R, rep, 'fix_conflicts_and_learned_in_order', cls=LC, mode=mode, proof=False, tracker=False, observer=False, stats=False)
            j = J(rep, 'using what was learned [%s]' % mode, r.where)
            lps = loops(r)
            A = ('p', 0, '')
            for l in lps:
                for st, ev in l.iters:
                    for a in calls(ev, 'internal_add_clause'):
                        pr = {strip(t) for t in find(a, lambda t: t[0] == 'E' and has(t[1], lambda y: y == A))}
                        ok = len(pr) == 1 and has(a[0], lambda t: t[0] == 'F' and str(t[2]).endswith('::second')) and type(a[1]) is tuple and a[1][:2] == ('call', 'std::size') and has(a[4], lambda t: t[0] == 'F' and str(t[2]).endswith('::first'))
                        j(ok or (None if fuzzy(a, lvs(a)) or not pr else False), 'a learned clause is added under its own identifier', lambda: '%s' % [short(x) for x in a])
                        j(a[2] == 1 and a[3] == 0 or (None if fuzzy(a[2]) else False), 'a learned clause is added as learned', lambda: '%s' % [short(x) for x in a[2:4]])
                    for a in calls(ev, 'imply_literal'):
                        x, c = strip(a[0]), a[1]
                        if st2(st, x) == 'x':
                            continue
                        j(clause_of(x, R) == strip(c) and x[1][2] == 0 or und(st, x, c), 'a conflict clause implies its first literal only if the second is false', lambda: short(x))
                        j(st2(st, x) == 'u' or und(st), 'a conflict clause implies its first literal only if the second is false', lambda: short_facts(st))
                        j(one(st, R, c) or st2(st, strip(lit_at(R, c, 1))) == 'f' or und(st), 'a conflict clause implies its first literal only if the second is false', lambda: short_facts(st))
                    ps = [v for v, _ in pushes(ev, R.v('_conflicts'))]
                    ex = calls(ev, 'fix_watched_literals')
                    c = ps[0] if ps else ex[0][0] if ex else None
                    if c is not None or any(calls(ev, n) for n in ('imply_literal',)):
                        if c is None:
                            c = calls(ev, 'imply_literal')[0][1]
                        x0 = strip(lit_at(R, c, 0))
                        s = st2(st, x0)
                        if s == 'f':
                            j(bool(ps) or und(st), 'a conflict still falsified is repaired again', lambda: short_facts(st))
                        elif s == 'u':
                            x1 = st2(st, strip(lit_at(R, c, 1)))
                            if x1 == 'f' or one(st, R, c):
                                j(bool(calls(ev, 'imply_literal')) or und(st), 'a conflict clause that became unit implies its literal', lambda: short_facts(st))
                # the learned clauses dropped for another one
                for st, ev in l.iters:
                    for a in calls(ev, 'add_and_delete_clause'):
                        pr = {strip(t) for t in find(a, lambda t: t[0] == 'E' and has(t[1], lambda y: y == A))}
                        j(len(pr) == 1 and has(a[0], lambda t: t[0] == 'F' and str(t[2]).endswith('::first')) and has(a[1], lambda t: t[0] == 'F' and str(t[2]).endswith('::second')) or (None if fuzzy(a, lvs(a)) or not pr else False),
                          'a learned clause is added under its own identifier', lambda: '%s' % [short(x) for x in a])
            if not any(calls(ev, 'internal_add_clause') for l in lps for _, ev in l.iters):
                j(None if any(e[0] == 'call' and e[1] not in ('imply_literal', 'fix_watched_literals', 'add_and_delete_clause', 'compute_subsumed_clauses') for l in lps for _, ev in l.iters for e in ev) else False, 'a learned clause is added under its own identifier', 'never added')
            for st, ret in r.outs:
                ev = st.cl[0]
                em = [v for f, v in st.facts.items() if f[0] == '==' and 0 in f[1:] and any(type(y) is tuple and (strip(y) == strip(('call', 'std::size', R.v('_conflicts'))) or y[0] == 'lv' and y[-1] == R.q('_conflicts')) for y in f[1:])]
                if calls(ev, 'repair_conflicts'):
                    continue
                j(bool(em) and em[-1] or und(st), 'a conflict still falsified is repaired again', lambda: short_facts(st))
            j.flush('a learned clause is added under its own identifier')


def st2(st, x):
    """value of a literal by the tests of the path: 't', 'f', 'u', None (open) or 'x' (the tests contradict each other)"""
    poss = {UND_, TRUE_, FALSE_}
    for k, v in st.facts.items():
        t = eq0(k)
        if type(t) is tuple and t[0] == 'call' and str(t[1]).startswith('napsat::Tlit::') and t[1].split('::')[-1] in NMS and eqs(t[2], x):
            w = NMS[t[1].split('::')[-1]]
            poss = poss - {w} if v else poss & {w}
    if not poss:
        return 'x'
    return {UND_: 'u', TRUE_: 't', FALSE_: 'f'}[next(iter(poss))] if len(poss) == 1 else None


def one(st, R, c):
    """the path knows that the clause has a single literal"""
    for f, v in st.facts.items():
        if f[0] in ('==', '<') and any(eqs(y, csize(R, c)) for y in f[1:]):
            ok = [n for n in range(1, 6) if evt(strip(f), {strip(csize(R, c)): n}) in (None, v)]
            if ok == [1]:
                return True
    return False


# ------------------------------------------------------------ level_repair, compute_repair_level, choose_backtracked_level
def undo(P, E, R, rep):
    with rep.guard('level undone for a clause'):
        for mode in ('NCB', 'CB', 'LSCB'):
            r = Run(P, E, R, rep, 'choose_backtracked_level', cls=LC, mode=mode, proof=False, tracker=False, observer=False, stats=False)
            j = J(rep, 'level undone for a clause [%s]' % mode, r.where)
            rule = 'the highest literal of the clause is undone'
            L = lambda k: ('m', R.var(('call', 'napsat::Tlit::var', ('m', ('E', r.p(0), k, 'napsat::Tlit'), 0)), 'level'), 0)
            for st, ret in r.outs:
                s = size1(st, r.p(1))
                if 0 in s:
                    if s == {0}:
                        continue
                if mode == 'NCB':
                    for n in sorted(s - {0}):
                        ok = ret == 0 if n == 1 else strip(ret) == strip(L(1)) or strip(ret) == strip(mk('+', L(0), -1)) or ret == 0
                        j(ok or und(st, ret), rule, lambda: 'size %d: %s' % (n, short(ret)))
                else:
                    j(strip(ret) == strip(mk('+', L(0), -1)) or und(st, ret), rule, lambda: short(ret))
            j.flush(rule)
    with rep.guard('undoing part of every conflict'):
        for mode in ('NCB', 'CB', 'LSCB'):
            r = Run(P, E, R, rep, 'level_repair', cls=LC, mode=mode, proof=False, tracker=False, observer=False, stats=False)
            j = J(rep, 'undoing part of every conflict [%s]' % mode, r.where)
            lps = loops(r)
            for st, ret in r.outs:
                ev = st.cl[0]
                bt = calls(ev, 'backtrack')
                if not bt:
                    j(any(same(st, t, 1) for t in [r.fin(st, R.f('_status'))]) or any(f[0] == '==' and 1 in f[1:] and v for f, v in st.facts.items()) or und(st), 'a repair backtracks', lambda: short_facts(st))
                    continue
                j(len(bt) == 1, 'a repair backtracks', lambda: '%d times' % len(bt))
                # the level is the minimum over all conflicts and learned clauses
                t, okc, okl = bt[0][0], None, None
                seen = 0
                while type(t) is tuple and t[0] == 'lv':
                    l = [x for x in lps if x.own(t)]
                    if len(l) != 1 or seen > 4:
                        break
                    l, seen = l[0], seen + 1
                    res = []
                    for s, e2 in l.iters:
                        n = l.next(s, t)
                        picked = minpick(s, n, t)
                        if picked is not None:
                            res.append(picked[0])
                            what = picked[1]
                        elif type(n) is tuple and n[0] == 'call' and str(n[1]).split('<')[0].endswith('::min') or type(n) is tuple and n[0] == 'min':
                            args = [x for x in n[1:] if type(x) is tuple]
                            rest = [x for x in args if x != t]
                            res.append(t in args and len(rest) == 1 and is_pure(rest[0], 'choose_backtracked_level'))
                            what = rest[0] if rest else None
                        else:
                            res.append(None if fuzzy(n, (t,)) else False)
                            what = None
                        if what is not None and is_pure(what, 'choose_backtracked_level'):
                            if has(what, lambda y: y == R.v('_conflicts')):
                                okc = all(x is True for x in res)
                            else:
                                okl = all(x is True for x in res)
                    if False in res:
                        okc = okc and False if okc is not None else False
                    ini = l.init(t)
                    t = next(iter(ini)) if len(ini) == 1 else None
                j(okc or (None if okc is None else False), 'every conflict is undone at least in part', lambda: short(bt[0][0]))
                j(okl or (None if okl is None else False), 'every learned clause is undone at least in part', lambda: short(bt[0][0]))
                fx = calls(ev, 'fix_conflicts_and_learned_in_order')
                at = [i for i, e in enumerate(ev) if e[0] == 'call' and e[1] == 'backtrack'][0]
                j(bool(fx) and any(e[0] == 'call' and e[1] == 'fix_conflicts_and_learned_in_order' for e in ev[at:]) or und(st), 'what was learned is used after backtracking', lambda: '%s' % [e[1] for e in ev])
            j.flush('every conflict is undone at least in part', 'every learned clause is undone at least in part')


def minpick(s, n, t):
    """a minimum taken by a test: (right, the other value); None when no such test was made"""
    for f, v in s.facts.items():
        if f[0] == '<' and t in f[1:]:
            o = f[2] if f[1] == t else f[1]
            if not is_pure(o, 'choose_backtracked_level') or n not in (t, o):
                continue
            less = v if f[1] == o else not v        # o below t (or, with the roles swapped, not above)
            return (n == (o if less else t)), o
    return (False, n) if is_pure(n, 'choose_backtracked_level') else (False, [x for x in n[1:] if is_pure(x, 'choose_backtracked_level')][0]) if type(n) is tuple and ('max' in str(n[0]) or n[0] == 'call' and '::max' in str(n[1])) and any(is_pure(x, 'choose_backtracked_level') for x in n[1:]) else None


def level_le(st, x, bound):
    """the path knows that the level of x is not above the bound"""
    r = None
    for f, v in st.facts.items():
        if f[0] == '<' and len(f) == 3:
            if strip(f[1]) == strip(bound) and varfield(f[2]) == (strip(x), 'level'):
                r = not v
            if strip(f[2]) == strip(bound) and varfield(f[1]) == (strip(x), 'level') and v:
                r = True
    return r


def eligible(P, E, R, rep):
    """which conflicts are analysed at a level"""
    with rep.guard('conflicts analysed at a level'):
        r = Run(P, E, R, rep, 'conflict_can_generate_learned_clause', cls=LC, mode='CB', proof=False, tracker=False, observer=False, stats=False, pred=lambda f: 'bitset' not in f.params[1]['t'])
        j = J(rep, 'conflicts analysed at a level', r.where)
        rule = 'a conflict is analysed only if no literal is above the level'
        for s0, ret in r.outs:
            for st in ([s0] if type(ret) is int else split(s0, mk('==', ret, 0))):
                v = bool(ret) if type(ret) is int else holds(st, mk('==', ret, 0)) is False
                if v:
                    j(all_lits(r, R, st, r.p(0), lambda s, x: level_le(s, x, r.p(1))), rule, lambda: short_facts(st))
        j.flush(rule)
    with rep.guard('implications that stay'):
        r = Run(P, E, R, rep, 'implication_active_after_backtrack', cls=LC, mode='CB', proof=False, tracker=False, observer=False, stats=False, pred=lambda f: 'bitset' not in f.params[1]['t'])
        j = J(rep, 'implications that stay', r.where)
        rule = 'a clause implies its literal after backtracking only if the others stay false'

        def stays(s, x):
            if level_le(s, x, r.p(1)):
                return True
            # the lazy level: the level of the clause that implies it from below
            for f, v in s.facts.items():
                if f[0] == '<' and strip(f[1]) == strip(r.p(1)) and not v and is_pure(f[2], 'lit_lazy_level') and strip(f[2][3]) == strip(x):
                    return True
                if f[0] == '<' and strip(f[1]) == strip(r.p(1)) and not v and has(f[2], lambda t: varfield(t) == (strip(x), 'missed_lower_implication')):
                    return True
                # implied by a clause with a single literal: the root level
                if f[0] == '==' and v and 1 in f[1:] and any(type(y) is tuple and y[0] == 'm' and y[1][0] == 'F' and y[1][2].endswith('TSclause::size') and
                                                            has(y, lambda t: varfield(t) == (strip(x), 'missed_lower_implication')) for y in f[1:]):
                    return True
            return None
        for s0, ret in r.outs:
            for st in ([s0] if type(ret) is int else split(s0, mk('==', ret, 0))):
                v = bool(ret) if type(ret) is int else holds(st, mk('==', ret, 0)) is False
                if v:
                    j(all_lits(r, R, st, r.p(0), stays, 1), rule, lambda: short_facts(st))
        j.flush(rule)


def lazy_level(P, E, R, rep):
    with rep.guard('level a literal falls to'):
        r = Run(P, E, R, rep, 'lit_lazy_level', cls=LC, mode='LSCB', proof=False, tracker=False, observer=False, stats=False, follow=('lit_lazy_level',))
        j = J(rep, 'level a literal falls to', r.where)
        rule = 'a literal implied from below falls to the level of that clause'
        x = r.p(0)
        V = ('call', 'napsat::Tlit::var', x)
        lev, lz = ('m', R.var(V, 'level'), 0), ('m', R.var(V, 'missed_lower_implication'), 0)
        for st, ret in r.outs:
            u = undefd(st, x, 'missed_lower_implication')
            if u is None:
                j(und(st, ret), rule, lambda: short_facts(st))
            elif u:
                j(strip(ret) == strip(lev) or und(st, ret), rule, lambda: short(ret))
            else:
                n = size1(st, csize(R, lz))
                up = ('m', R.var(('call', 'napsat::Tlit::var', lit_at(R, lz, 1)), 'level'), 0)
                if n == {1}:
                    j(ret == 0 or und(st, ret), rule, lambda: short(ret))
                elif 1 not in n:
                    j(strip(ret) == strip(up) or und(st, ret), rule, lambda: short(ret))
                else:
                    j(und(st, ret), rule, lambda: short_facts(st))
        j.flush(rule)


def reimplied(P, E, R, rep):
    """the level at which the analysis goes on, the level of a repair"""
    with rep.guard('level of the clause analysed further'):
        r = Run(P, E, R, rep, 'update_bt_after_analysis_of_reimplication', cls=LC, mode='LSCB', proof=False, tracker=False, observer=False, stats=False, pred=lambda f: 'bitset' not in f.params[0]['t'])
        j = J(rep, 'level of the clause analysed further', r.where)
        lps = loops(r)
        rule = 'analysis goes on at the highest level of the remaining literals'
        for st, ret in r.outs:
            j(extreme(R, lps, st, ret, True, bsize(R), lambda t, l: elem(t, buf(R)), {0}), rule, lambda: short(ret))
        j.flush(rule)
    with rep.guard('level of a repair'):
        r = Run(P, E, R, rep, 'compute_repair_level', cls=LC, mode='CB', proof=False, tracker=False, observer=False, stats=False)
        j = J(rep, 'level of a repair', r.where)
        lps = loops(r)
        rule = 'a repair concerns the lowest of the highest levels of the conflicts'
        CF = R.v('_conflicts')

        def pos(t, l):
            c = clause_of(t, R)
            if c is None or t[1][2] != 0 or not (type(c) is tuple and c[0] == 'm' and c[1][0] == 'E' and strip(c[1][1]) == strip(CF)):
                return None
            return c[1][2]
        for st, ret in r.outs:
            j(extreme(R, lps, st, ret, False, ('call', 'std::size', CF), pos, {0xffffffff}), rule, lambda: short(ret))
        j.flush(rule)


def extreme(R, lps, st, ret, most, bound, pos, start):
    """ret is the highest (or lowest) level of the literals that pos places in a sequence: True / False / None"""
    ls = [l for l in lps if l.own(ret)]
    if len(ls) != 1:
        return None if fuzzy(ret) or lps else False
    l, out = ls[0], True
    at = set()
    for s, ev in l.iters:
        n = l.next(s, ret)
        xs = {strip(t) for t in find(said(l, s, ev), lambda t: varfield(t)[1] == 'level')}
        xs = {t for t in xs if pos(varfield(t)[0], l) is not None}
        if not xs:
            return und(s)
        if len(xs) != 1:
            return None
        q = xs.pop()
        at.add(pos(varfield(q)[0], l))
        for a in range(4):
            for b in range(4):
                env = {strip(ret): a, q: b}
                if any(evt(strip(f), env) not in (None, v) and bool(evt(strip(f), env)) != v for f, v in s.facts.items() if has(f, lambda t: strip(t) == q or t == ret)):
                    continue
                v = mval(n, env)
                if v is None:
                    out = None if out else out
                elif v != (max(a, b) if most else min(a, b)):
                    return False
    if len(at) != 1:
        return None
    ini = l.init(ret)
    if not all(type(x) is int for x in ini):
        ini = {mval(x, {}) for x in ini}
    if None in ini:
        out = None
    elif most and ini != {0} or not most and any(x < 1000 for x in ini):
        return False
    v = visits(l, st, at.pop(), bound)
    return v if v is not True else out


def mval(n, env):
    n = strip(n)
    if type(n) is tuple and n[0] == 'call' and str(n[1]).split('<')[0] in ('std::min', 'std::max') or type(n) is tuple and n[0] in ('min', 'max'):
        a = [x for x in n[1:] if x is not None]
        a = [x for x in a if type(x) in (int, tuple) and not (type(x) is str)]
        v = [mval(x, env) for x in (a[1:] if n[0] == 'call' and type(a[0]) is str else a)]
        return None if None in v or not v else (min if 'min' in str(n[:2]) else max)(v)
    return evt(n, env)


def size1(st, n):
    ok = set()
    for k in range(0, 6):
        if all(evt(strip(f), {strip(n): k}) is None or bool(evt(strip(f), {strip(n): k})) == v for f, v in st.facts.items() if has(f, lambda t: strip(t) == strip(n))):
            ok.add(k)
    return ok
