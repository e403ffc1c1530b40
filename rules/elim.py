"""S08: learned clauses are counted exactly, start with the highest activity, and are eliminated only for a low one."""
import itertools
from rules.solver import *
from rules.learn import LC, und, eq0
from rules.purge import GC
from rules.activity import AC, roots, nm, ctor, fact01, num, factor, near, rescaled

ACT = '_activities'


class DC(AC, GC):
    pass


def check(P, E, rep):
    R = Sol(P)
    start(P, E, R, rep)
    bump(P, E, R, rep)
    used(P, E, R, rep)
    counted(P, E, R, rep)
    due(P, E, R, rep)
    eliminate(P, E, R, rep)
    owners(P, E, R, rep)


def always(st, t, env, want):
    """does t have the value `want` whatever the memory it reads besides holds?  None when that memory is known about"""
    t = strip(t)
    v = evt(t, env)
    if v is not None:
        return v == want
    more = [x for x in set(find(t, lambda x: x[0] in ('m', 'size', 'lv'))) if x not in env]
    if not 0 < len(more) < 3 or any(has(strip(f), lambda y: y == x) for f in st.facts for x in more):
        return None
    res = [evt(t, dict(env, **{}) | dict(zip(more, vs))) for vs in itertools.product(range(6), repeat=len(more))]
    return False if any(r is not None and r != want for r in res) else None


def act(R, cl):
    return ('E', R.v(ACT), cl, 'double')


def isact(R, loc):
    return loc[0] == 'E' and loc[1] == R.v(ACT)


def text(st):
    return short(tuple(st.facts.items()))


# ------------------------------------------------------------ a new clause starts at the top
def start(P, E, R, rep):
    MAX = mem(R.f('_max_clause_activity'))
    with rep.guard('next_clause_id'):
        r = Run(P, E, R, rep, 'next_clause_id', cls=AC, mode='CB', observer=False, stats=False)
        j = J(rep, 'a slot for a clause', r.where)
        for st, ret in r.outs:
            ev = st.cl[0]
            w = [(e[1], e[2]) for e in ev if e[0] == 'w' and isact(R, e[1])]
            pu = pushes(ev, R.v(ACT))
            if pushes(ev, R.v('_clauses')):
                j(len(pu) == 1 and eqs(pu[0][0], MAX) or (None if len(pu) == 1 and fuzzy(pu[0][0]) or any(e[0] in ('resize', 'vmut') and e[1] == R.v(ACT) for e in ev) else False), 'a clause starts with the highest activity', lambda: '%s' % [short(x) for x in pu])
            else:
                good = [v for l, v in w if eqs(l[2], ret)]
                j(bool(good) and eqs(good[-1], MAX) or (None if good and fuzzy(good[-1]) or fuzzy(ret) else False), 'a clause in a reused slot starts with the highest activity', lambda: '%s' % [(short(a), short(b)) for a, b in w])
        j.flush('a clause starts with the highest activity', 'a clause in a reused slot starts with the highest activity')


# ------------------------------------------------------------ one bump
def bump(P, E, R, rep):
    INC, MAX, MUL = R.f('_clause_activity_increment'), R.f('_max_clause_activity'), R.opt('clause_activity_multiplier')
    with rep.guard('bump_clause_activity'):
        r = Run(P, E, R, rep, 'bump_clause_activity', cls=AC, mode='CB', observer=False, stats=False, follow=('bump_clause_activity',))
        j = J(rep, 'bumping a clause', r.where)
        cl = r.p(0)
        inc0, inc1 = mem(INC), mk('*', mem(INC), MUL)
        some = False
        for st, ret in r.outs:
            ev = st.cl[0]
            w = [(e[1], e[2]) for e in ev if e[0] == 'w' and isact(R, e[1])]
            mine = [v for l, v in w if eqs(l[2], cl)]
            up = [v for v in mine if factor(v, mem(act(R, cl))) is None]
            j(len(up) == 1 and (eqs(up[0], mk('+', mem(act(R, cl)), inc0)) or eqs(up[0], mk('+', mem(act(R, cl)), inc1))) or (None if up and fuzzy(up[0]) else False), 'the activity grows by the increment', lambda: '%s' % [short(x) for x in mine])
            j(not [1 for l, v in w if not eqs(l[2], cl)] or None, 'only the clause is bumped', lambda: '%s' % [short(a) for a, b in w])
            wi, wm = writes(ev, INC), writes(ev, MAX)
            first = wi[0] if wi else None
            whole = first is not None and (eqs(first, inc1) or any(eqs(x, inc1) for x in find(first, lambda t: t[0] == '*')))
            j(whole or (None if first is not None and fuzzy(first) else False), 'the increment grows by the multiplier', lambda: '%s' % [short(x) for x in wi])
            ok = wm and any(eqs(x, mk('+', mem(MAX), i)) for i in (inc0, inc1) for x in [wm[0]] + find(wm[0], lambda t: t[0] == '+'))
            j(ok or (None if wm and fuzzy(wm[0]) else False), 'the highest activity grows along', lambda: '%s' % [short(x) for x in wm])
            # never below an activity: the increment added to the maximum is at least the one given to the clause
            if ok and up:
                a_new = eqs(up[0], mk('+', mem(act(R, cl)), inc1))
                m_new = any(eqs(x, mk('+', mem(MAX), inc1)) for x in [wm[0]] + find(wm[0], lambda t: t[0] == '+'))
                j(not (a_new and not m_new), 'the highest activity grows along', 'the maximum gets the smaller increment')
            here = [l for l in loops(r) if any(e[0] == 'L' and e[1:] == l.key for e in ev) and l.iters]
            lim = [num(x) for f in st.facts for x in f[1:] if f[0] == '<' and num(x) is not None]
            if here or len(wi) > 1 or len(wm) > 1:
                some = True
                cov, c, l = rescaled(r, st, lambda loc: loc[2] if isact(R, loc) else None, [('call', 'std::size', R.v('_clauses')), ('call', 'std::size', R.v(ACT))], 0)
                j(cov, 'a rescaling reaches every clause', lambda: text(st))
                ci = ratio(wi, inc1)
                cm = [x for i in (inc0, inc1) for x in [ratio(wm, mk('+', mem(MAX), i))] if x is not None]
                if c is not None:
                    j(near(c, ci) or (None if ci is None and wi and fuzzy(wi[-1]) else False), 'a rescaling keeps the ranking', lambda: 'clauses by %s, increment %s' % (c, [short(x) for x in wi]))
                    j(bool(cm) and near(c, cm[0]) or (None if not cm and wm and fuzzy(wm[-1]) else False), 'a rescaling keeps the ranking', lambda: 'clauses by %s, maximum %s' % (c, [short(x) for x in wm]))
                    j(0 < c < 1, 'a rescaling lowers the activities', lambda: str(c))
                j(any(x <= 1e300 for x in lim) if lim else None, 'a rescaling happens before activities overflow', lambda: '%s' % lim)
        j(some, 'a rescaling happens before activities overflow', 'never rescaled')
        j.flush('the activity grows by the increment', 'a rescaling keeps the ranking')


def ratio(ws, base):
    """the constant the value was finally multiplied by"""
    if not ws:
        return None
    if len(ws) == 1 and eqs(ws[0], base):
        return 1.0
    return factor(ws[-1], base) if ws else None


# ------------------------------------------------------------ every conflict counts
def used(P, E, R, rep):
    CF = R.v('_conflicts')
    for mode in ('CB', 'GB'):
        with rep.guard('bumping conflicts'):
            r = Run(P, E, R, rep, 'repair_conflicts', cls=AC, mode=mode, observer=False, stats=False)
            j = J(rep, 'clauses found in conflict [%s]' % mode, r.where)
            lps = [l for l in loops(r) if any(calls(ev, 'bump_clause_activity') for _, ev in l.iters)]
            RU = 'every clause in conflict is bumped once'
            for st, ret in r.outs:
                ev = st.cl[0]
                j(not calls(ev, 'bump_clause_activity') or None, RU, '')
                here = [l for l in lps if any(x[0] == 'L' and x[1:] == l.key for x in ev)]
                if len(here) != 1:
                    j(None if here else False, RU, '%d loops' % len(here))
                    continue
                l = here[0]
                at = [i for i, x in enumerate(ev) if x[0] == 'L' and x[1:] == l.key][0]
                rp = [i for i, x in enumerate(ev) if x[0] == 'call' and x[1] in ('level_repair', 'graph_repair', 'root_level_conflict')]
                j(not rp or at < min(rp) or False, RU, 'after the repair')
                ix = set()
                for s, e2 in l.iters:
                    a = calls(e2, 'bump_clause_activity')
                    if len(a) != 1:
                        j(False if not und_(s) else None, RU, lambda: '%d in an iteration, %s' % (len(a), text(s)))
                        continue
                    x = a[0][0]
                    if type(x) is tuple and x[0] == 'm' and x[1][0] in ('E', 'D') and has(x[1][1], lambda t: t == CF):
                        ix |= {t for t in find(x, lambda t: t[0] == 'lv' and l.own(t))}
                    else:
                        j(None if fuzzy(x) else False, RU, lambda: short(x))
                if len(ix) != 1:
                    j(None, RU, lambda: '%s' % ix)
                    continue
                i = ix.pop()
                ends = {strip(y) for f in st.facts if f[0] in ('<', '==') and i in f for y in f[1:] if y != i}
                v = [visits(l, st, i, b) for b in ends if type(b) is tuple]
                ok = [b for b in ends if type(b) is tuple and (b[0] == 'u' or b[0] == 'call' and b[1] == 'std::size' and b[2] == CF)]
                j(True in v and bool(ok) or (None if True in v or None in v or not v else False), RU, lambda: '%s' % [short(b) for b in ends])
            j.flush(RU)


def und_(st):
    return any(fuzzy(f) and not has(f, lambda t: t[0] == 'lv') for f in st.facts)


# ------------------------------------------------------------ counting
def counted(P, E, R, rep):
    N = R.f('_n_learned_clauses')
    NX = R.f('_next_clause_elimination')
    for mode in ('CB', 'GB'):
        with rep.guard('counting learned clauses'):
            r = Run(P, E, R, rep, 'internal_add_clause', cls=AC, mode=mode, proof=False, tracker=False, observer=False, stats=False)
            j = J(rep, 'adding a clause [%s]' % mode, r.where)
            lrn, ext = r.p(2), r.p(3)
            for st, ret in r.outs:
                ev = st.cl[0]
                l, e = fact01(st, lrn), fact01(st, ext)
                kept = not same(st, ret, UNDEFC)
                d, dx = delta(ev, N), delta(ev, NX)
                if l and e or not kept and not e and any(x[0] == 'w' and x[1][0] == 'F' and x[1][2] == REC + '::TSclause::size' for x in ev):
                    continue        # a learned clause is no given clause, and no tautology (S06)
                if not kept and not e:
                    RU = 'a learned clause that is dropped is not counted'
                    j(None if d is None else d == 0, RU, lambda: '%s; %s' % (d, text(st)))
                else:
                    want = 1 if l else 0
                    if l is None and d == 'learned':
                        j(True, 'a learned clause is counted once')
                    else:
                        j(None if d is None else d == want if l is not None else None if e is None else d == 0, 'a learned clause is counted once', lambda: '%s; %s' % (d, text(st)))
                if dx is not None and e is not None:
                    j(dx == (1 if e else 0), 'each clause given raises the limit by one', lambda: '%s; %s' % (dx, text(st)))
                else:
                    j(None, 'each clause given raises the limit by one', lambda: text(st))
            j.flush('a learned clause is counted once', 'a learned clause that is dropped is not counted')
    with rep.guard('deleting'):
        r = Run(P, E, R, rep, 'delete_clause', cls=AC, mode='CB', proof=False, tracker=False, observer=False, stats=False)
        j = J(rep, 'deleting a clause', r.where)
        was = mem(field(R, r.p(0), 'learned'))
        for st, ret in r.outs:
            w = writes(st.cl[0], N)
            k = fact01(st, was)
            RU = 'a deleted learned clause is no longer counted'
            if len(w) > 1:
                j(None, RU, '')
            elif not w:
                j(k is False, RU, lambda: text(st))
            elif k is None:
                j(eqs(w[0], mk('-', mem(N), was)) or eqs(w[0], mk('+', mem(N), mk('*', -1, was))) or check_sub(w[0], N, was), RU, lambda: short(w[0]))
            else:
                j(always(st, w[0], {strip(mem(N)): 5, strip(was): int(k)}, 5 - int(k)), RU, lambda: short(w[0]))
        j.flush('a deleted learned clause is no longer counted')
    with rep.guard('writers of the count'):
        for fld, ok, what in ((N, ('internal_add_clause', 'delete_clause'), 'count of learned clauses'),
                              (('F', REC + '::TSclause::learned'), ('internal_add_clause', 'next_clause_id'), 'mark of learned clauses'),
                              (NX, ('internal_add_clause', 'simplify_clause_set'), 'limit of learned clauses')):
            loc = fld if len(fld) == 2 else ('F', fld[2])
            for fid in roots(P, E, [loc]):
                f = P.funcs[fid]
                if ctor(f):
                    continue
                good = nm(f) in ok
                rep.add('%s written by %s' % (what, nm(f)), f.where(), OK if good else BAD, '' if good else 'changed outside adding and deleting')


def check_sub(t, N, was):
    vs = [evt(strip(t), {strip(mem(N)): 5, strip(was): x}) for x in (0, 1)]
    return None if None in vs else vs == [5, 4]


def delta(ev, loc):
    """how much the counter grows on the path (None: not a constant)"""
    w = writes(ev, loc)
    if not w:
        return 0
    v = evt(strip(w[-1]), {strip(mem(loc)): 50})
    return None if v is None else v - 50


# ------------------------------------------------------------ when
def due(P, E, R, rep):
    N, NX, DEL = mem(R.f('_n_learned_clauses')), mem(R.f('_next_clause_elimination')), R.opt('delete_clauses')
    with rep.guard('elimination'):
        r = Run(P, E, R, rep, 'propagate', cls=AC, mode='CB', observer=False, stats=False)
        j = J(rep, 'eliminating during search', r.where)
        # conflicts pending from before are repaired first, without elimination
        paths = [(st, st.cl[0], False) for st, _ in r.outs] + [x + (True,) for l in loops(r) for x in l.iters]
        seen = 0
        for st, ev, search in paths:
            c = [i for i, e in enumerate(ev) if e[0] == 'call' and e[1] == 'simplify_clause_set']
            full = [v for f, v in st.facts.items() if f[0] == '<' and eqs(f[1], N) and eqs(f[2], NX)]
            over = [v for f, v in st.facts.items() if f[0] == '<' and eqs(f[1], NX) and eqs(f[2], N)]
            on = fact01(st, DEL)
            reach = (False if full and full[-1] else True if full and not full[-1] or over and over[-1] else None)
            if c:
                seen += 1
                j(on is True or (None if on is None and fuzzy(tuple(st.facts)) and any(eqs(y, DEL) for f in st.facts for y in f) else False), 'clauses are eliminated only when allowed', lambda: text(st))
                j(reach or (None if reach is None and over else False), 'clauses are eliminated when there are enough', lambda: text(st))
            elif search and any(e[0] == 'call' and e[1] == 'repair_conflicts' for e in ev):
                uns = any(f[0] == '==' and v and 1 in f[1:] and has(f, lambda t: t == R.f('_status')) for f, v in st.facts.items())
                j(on is False or reach is False or uns or False, 'clauses are eliminated when there are enough', lambda: text(st))
        j(seen > 0, 'clauses are eliminated when there are enough', 'never')
        j.flush('clauses are eliminated only when allowed')


# ------------------------------------------------------------ which
def eliminate(P, E, R, rep):
    TH, MAX, NX = R.f('_clause_activity_threshold'), R.f('_max_clause_activity'), R.f('_next_clause_elimination')
    for tracker in (False, True):
        with rep.guard('simplify_clause_set'):
            r = Run(P, E, R, rep, 'simplify_clause_set', cls=DC, mode='CB', proof=False, tracker=tracker, observer=False, stats=False)
            j = J(rep, 'eliminating clauses [tracker %d]' % tracker, r.where)
            th1 = mk('*', mem(TH), R.opt('clause_activity_threshold_decay'))
            lps = [l for l in loops(r) if any(calls(ev, 'delete_clause') for _, ev in l.iters)]
            LOW = 'only a clause of low activity is eliminated'
            KEEP = 'a removable clause of low activity is eliminated'
            for st, ret in r.outs:
                ev = st.cl[0]
                w = writes(ev, TH)
                j(len(w) == 1 and eqs(w[0], th1) or (None if w and fuzzy(w[-1]) else False), 'the threshold decays once per elimination', lambda: '%s' % [short(x) for x in w])
                w = writes(ev, NX)
                j(len(w) == 1 and type(w[0]) is tuple and has(w[0], lambda t: t[0] == '*' and any(eqs(x, R.opt('clause_elimination_multiplier')) for x in t[1:]) and any(has(x, lambda y: eqs(y, mem(NX))) for x in t[1:])) or (None if w and fuzzy(w[-1]) else False), 'the limit grows once per elimination', lambda: '%s' % [short(x) for x in w])
                here = [l for l in lps if any(x[0] == 'L' and x[1:] == l.key for x in ev)]
                if len(here) != 1:
                    j(None if here or any(fuzzy(f) for f in st.facts) and calls(ev, 'delete_clause') else False, KEEP, '%d loops' % len(here))
                    continue
                l = here[0]
                ix = {a[0] for s, e2 in l.iters for a in calls(e2, 'delete_clause')}
                own = {t for x in ix for t in ([x] if type(x) is tuple and x[0] == 'lv' else [])}
                j(visits(l, st, next(iter(own)), ('call', 'std::size', R.v('_clauses'))) if len(own) == 1 else None, KEEP, lambda: '%s' % [short(x) for x in ix])
            for l in lps:
                for st, ev in l.iters:
                    d = calls(ev, 'delete_clause')
                    cs = [strip(x[1][2]) for x in find(tuple(st.facts), lambda t: t[0] == 'm' and t[1][0] == 'E' and t[1][1] == R.v(ACT))]
                    low = None
                    good = None
                    for f, v in st.facts.items():
                        if f[0] != '<':
                            continue
                        for k in (1, 2):
                            a, b = f[k], f[3 - k]
                            if type(a) is tuple and a[0] == 'm' and a[1][0] == 'E' and a[1][1] == R.v(ACT) and (not d or eqs(a[1][2], d[0][0])):
                                low = v if k == 1 else not v
                                good = threshold(b, th1, mem(MAX), r, st)
                                strict = k == 1
                                if not strict and d:
                                    good = False
                    if d:
                        j(low is True and good or (None if low is None and fuzzy_nolv(st) or low is True and good is None else False), LOW, lambda: text(st))
                    elif low is True:
                        # below the threshold and not eliminated: must be protected otherwise
                        j(excused(R, st) or False, KEEP, lambda: text(st))
                    elif low is None:
                        j(excused(R, st) or und(st), KEEP, lambda: text(st))
            j.flush(LOW, KEEP)


def fuzzy_nolv(st):
    return any(has(f, lambda t: t[0] in ('u', 'app', 'r', 'phi')) for f in st.facts)


def threshold(b, th1, MAX, r, st):
    """b is the current fraction of the highest activity"""
    vals = []
    leaves = {strip(x) for x in find(b, lambda t: t[0] == 'm')}
    want = mk('*', MAX, th1)
    lw = {strip(x) for x in find(want, lambda t: t[0] == 'm')}
    if leaves != lw:
        return None if fuzzy(b) else False
    for k in (3, 7, 11):
        env = {x: k + i * i for i, x in enumerate(sorted(lw, key=str))}
        vals.append((evt(strip(b), env), evt(strip(want), env)))
    if any(None in v for v in vals):
        return None
    return all(x == y for x, y in vals)


def excused(R, st):
    """the path knows a reason to keep the clause: deleted, unwatched, not learned, short, or protected"""
    for f, v in st.facts.items():
        t = eq0(f)
        if type(t) is tuple and t[0] == 'm' and t[1][0] == 'F':
            n = t[1][2].split('::')[-1]
            if n == 'deleted' and not v or n in ('watched', 'learned') and v or n == 'external' and not v:
                return True
        if f[0] == '<' and f[1] == 2 and has(f, lambda y: y[0] == 'F' and y[2].endswith('TSclause::size')) and not v:
            return True
        if f[0] == '==' and v and has(f, lambda y: y[0] == 'F' and (y[2].endswith('TSvar::reason') or y[2].endswith('TSvar::missed_lower_implication'))):
            return True
        if f[0] == '==' and v and any(has(f, lambda y: y[0] == 'F' and y[2].endswith('TSclause::size')) and x in (1, 2) for x in f[1:]):
            return True
    return None


def owners(P, E, R, rep):
    with rep.guard('writers of clause activities'):
        for fld, ok, what in ((ACT, ('bump_clause_activity', 'next_clause_id'), 'clause activity'),
                              ('_max_clause_activity', ('bump_clause_activity',), 'highest activity'),
                              ('_clause_activity_increment', ('bump_clause_activity',), 'clause activity increment'),
                              ('_clause_activity_threshold', ('simplify_clause_set',), 'activity threshold')):
            for fid in roots(P, E, [('F', R.q(fld)), ('E', R.q(fld))]):
                f = P.funcs[fid]
                if ctor(f):
                    continue
                n = nm(f)
                if n in ('clause_allocate', 'clauses_allocate', 'allocate_clauses') or fld == ACT and n not in ok and only_reserve(P, R, f):
                    continue
                rep.add('%s written by %s' % (what, n), f.where(), OK if n in ok else BAD, '' if n in ok else 'changed outside bumping')


def only_reserve(P, R, f):
    ns = f.nodes.values() if isinstance(f.nodes, dict) else f.nodes
    return any(n and 'Call' in n.get('k', '') and str(n.get('qn', '')).endswith('::reserve') for n in ns)
