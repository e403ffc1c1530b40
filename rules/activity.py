"""S07: decisions take the most active free variable with its saved or suggested value, and activities change only as documented."""
from rules.solver import *
from rules.learn import LC, elem, elems, buf, clause_of, marks, bufw, und, isneg, analysed, truth, eq0

HEAP = 'napsat::utils::heap::'


class AC(SC):
    keepfacts = True
    keeplocals = True


def check(P, E, rep):
    R = Sol(P)
    decide(P, E, R, rep)
    suggest(P, E, R, rep)
    saved(P, E, R, rep)
    queue(P, E, R, rep)
    bump(P, E, R, rep)
    decay(P, E, R, rep)
    adding(P, E, R, rep)
    for mode in ('CB', 'GB'):
        analysis(P, E, R, rep, mode)


# ------------------------------------------------------------ who may write what
def roots(P, E, locs=(), names=()):
    """functions a write of locs (or a direct call of names) belongs to: the analysed operation it is made for"""
    anch = {REC + '::' + a for a in ANCHORS} | {REC + '::suggest_polarity'}
    todo = [fid for fid, f in P.funcs.items() if any(l in E.direct[fid] for l in locs) or any(called(f, n) for n in names)]
    seen, out = set(), set()
    while todo:
        fid = todo.pop()
        if fid in seen:
            continue
        seen.add(fid)
        f = P.funcs[fid]
        q = f.qn.split('<')[0]
        cs = [c for c in E.callers(fid) if P.funcs[c].qn.startswith(REC)]
        if q in anch or not cs:
            out.add(fid)
        else:
            todo += cs
    return sorted(out)


def called(f, name):
    return any(n.get('k') in ('CXXMemberCallExpr', 'CallExpr') and n.get('qn') == name for n in f.nodes.values()) if isinstance(f.nodes, dict) else any(n and n.get('qn') == name and 'Call' in n.get('k', '') for n in f.nodes)


def nm(f):
    return f.qn[len(REC) + 2:].split('<')[0] if f.qn.startswith(REC + '::') else f.qn


def ctor(f):
    return f.kind == 'ctor' or nm(f) in ('NapSAT', 'TSvar', 'TSvar::TSvar', 'TSclause::TSclause')


# ------------------------------------------------------------ decisions
def top(R):
    H = R.v('_variable_heap')
    return lambda t: t[:3] == ('call', HEAP + 'top', H)


def unassigned(st, v):
    """the path knows the variable to be unassigned / assigned"""
    for k, val in st.facts.items():
        if k[0] == '==' and 2 in k[1:3] and any(type(t) is tuple and t[0] == 'm' and t[1][0] == 'F' and t[1][2].endswith('TSvar::state') and has(t[1][1], lambda y: eqs(y, v)) for t in k[1:3]):
            return val
    return None


def polval(st, lit):
    """polarity term of a literal"""
    if type(lit) is tuple and lit[0] == 'call' and lit[1] == 'napsat::Tlit::Tlit' and len(lit) >= 4:
        return lit[3]
    return None


def decide(P, E, R, rep):
    H = R.v('_variable_heap')
    with rep.guard('decide'):
        r = Run(P, E, R, rep, 'decide', pred=lambda g: not g.params, cls=AC, mode='CB', observer=False, stats=False)
        j = J(rep, 'choosing a decision', r.where)
        for st, ret in r.outs:
            for a in calls(st.cl[0], 'imply_literal'):
                ts = find(a[0], top(R))
                lit = a[0]
                neg = False
                while type(lit) is tuple and lit[:2] == ('call', '~lit'):
                    lit, neg = lit[2], not neg
                isl = type(lit) is tuple and lit[0] == 'call' and 'Tlit' in lit[1] and len(lit) >= 4
                v, p = (lit[-2], lit[-1]) if isl else (None, None)
                j(bool(v is not None and top(R)(v)) or (None if not isl or fuzzy(lit) else False), 'the decision is the most active variable of the queue', lambda: short(a[0]))
                if not ts:
                    continue
                u = unassigned(st, ts[0])
                j(u or (None if u is None and fuzzy(ts[0]) else False), 'the decision is an unassigned variable', lambda: short(st.facts))
                ph = mem(R.var(ts[0], 'phase_cache'))
                if not isl:
                    j(None, 'the decision has the saved value', lambda: short(a[0]))
                    continue
                if type(p) is int:
                    k = fact01(st, ph)
                    good = k is not None and k == (bool(p) != neg)
                    j(good or (None if k is None and any(fuzzy(f) for f in st.facts) else False), 'the decision has the saved value', lambda: short(a[0]))
                else:
                    good = boolof(p, ph)
                    j(None if good is None and fuzzy(p) else good is (not neg), 'the decision has the saved value', lambda: short(a[0]))
        for st, ret in r.outs:
            ev = [e[1][len(HEAP):] for e in st.cl[0] if e[0] == 'call' and e[1].startswith(HEAP)]
            if 'pop' in ev and 'top' in ev[ev.index('pop'):] and calls(st.cl[0], 'imply_literal'):
                u = [unassigned(st, t) for t in find(tuple(st.facts), top(R))]
                j(False if True in u else None, 'only assigned variables are skipped', lambda: short(tuple(st.facts)))
        for l in loops(r):
            for st, ev in l.iters:
                for a in calls(ev, HEAP + 'pop'):
                    ts = find(tuple(st.facts), top(R))
                    u = [unassigned(st, t) for t in ts]
                    j(False in u or (None if not ts else False), 'only assigned variables are skipped', lambda: short(tuple(st.facts)))
        j.flush('the decision is the most active variable of the queue', 'the decision has the saved value')


def fact01(st, t):
    """truth of a one-bit term on the path"""
    for k, v in st.facts.items():
        if k[0] == '==' and any(eqs(y, t) for y in k[1:]):
            o = [y for y in k[1:] if not eqs(y, t)]
            if o and o[0] == 0:
                return not v
            if o and o[0] == 1:
                return v
        if eqs(k, t):
            return v
    return None


def boolof(p, t):
    """p is the one-bit term t (True), its negation (False), or something else (None)"""
    vals = [evt(strip(p), {strip(t): x}) for x in (0, 1)]
    if None in vals:
        if type(p) is tuple and p[0] == 'ite' and len(p) == 4:
            c = boolof(p[1], t)
            if c is not None and type(p[2]) is int and type(p[3]) is int:
                x, y = (p[2], p[3]) if c else (p[3], p[2])
                vals = [int(bool(y)), int(bool(x))]
        if None in vals:
            return None
    vals = [bool(x) for x in vals]
    return True if vals == [False, True] else False if vals == [True, False] else None


def suggest(P, E, R, rep):
    with rep.guard('suggest_polarity'):
        r = Run(P, E, R, rep, 'suggest_polarity', cls=AC, mode='CB', observer=False, stats=False)
        j = J(rep, 'suggesting a value', r.where)
        lit, want = r.p(0), r.p(1)
        for st, ret in r.outs:
            for v, ks in variables(st, R, lit):
                loc = R.var(v, 'phase_cache')
                x = r.fin(st, loc)
                if type(x) is int:
                    k = fact01(st, want)
                    j(k is not None and k == bool(x) or (None if k is None and fuzzy(tuple(st.facts)) else False), 'the suggested value is saved', lambda: short(x))
                else:
                    j(boolof(x, want) or (None if fuzzy(x) else False), 'the suggested value is saved', lambda: short(x))
            other = [e for e in st.cl[0] if e[0] == 'w' and not (e[1][0] == 'F' and e[1][2].endswith('TSvar::phase_cache') and has(e[1], lambda t: eqs(t, lit))) and e[1][0] in ('F', 'E')]
            j(not [e for e in other if e[1][0] == 'F' and 'TSvar::' in e[1][2]], 'a suggestion changes nothing else', lambda: '%s' % [short(e[1]) for e in other])
        j.flush('the suggested value is saved')


def variables(st, R, lit):
    return [(vart(lit), ())]


def saved(P, E, R, rep):
    for mode in ('CB', 'GB'):
        with rep.guard('saved value'):
            r = Run(P, E, R, rep, 'imply_literal', cls=AC, mode=mode, observer=False, stats=False)
            j = J(rep, 'saving the value [%s]' % mode, r.where)
            lit = r.p(0)
            for st, ret in r.outs:
                x = r.fin(st, R.var(vart(lit), 'phase_cache'))
                if type(x) is int:
                    k = fact01(st, pol(lit))
                    j(k is not None and k == bool(x) or (None if k is None else False), 'an assignment saves its value', lambda: short(x))
                else:
                    j(boolof(x, pol(lit)) or (None if fuzzy(x) else False), 'an assignment saves its value', lambda: short(x))
            j.flush('an assignment saves its value')
    with rep.guard('writers of the saved value'):
        ok = {'imply_literal', 'suggest_polarity'}
        for fid in roots(P, E, [('F', REC + '::TSvar::phase_cache')]):
            f = P.funcs[fid]
            if ctor(f):
                continue
            rep.add('saved value written by %s' % nm(f), f.where(), OK if nm(f) in ok else BAD, '' if nm(f) in ok else 'the saved value changes without an assignment or a suggestion')


# ------------------------------------------------------------ the queue holds the activities
def act(R, v):
    return R.var(v, 'activity')


def varof(t):
    """v if t is the activity field of variable v"""
    if type(t) is tuple and t[0] == 'm' and t[1][0] == 'F' and t[1][2] == REC + '::TSvar::activity':
        e = t[1][1]
        if e[0] == '&' and e[1][0] == 'E':
            return e[1][2]
    return None


def queue(P, E, R, rep):
    H = R.v('_variable_heap')
    muts = [HEAP + n for n in ('insert', 'update', 'increase_activity', 'normalize', 'pop', 'remove')]
    fids = roots(P, E, (), muts)
    names = set()
    for fid in fids:
        f = P.funcs[fid]
        if not f.qn.startswith(REC):
            continue
        for mode in ('CB', 'GB'):
            with rep.guard('queue in ' + nm(f)):
                r = Run(P, E, R, rep, nm(f), func=f, cls=AC, mode=mode, observer=False, stats=False, follow=(nm(f),))
                j = J(rep, 'queue kept by %s [%s]' % (nm(f), mode), f.where())
                for st, ev in [(st, st.cl[0]) for st, _ in r.outs] + [x for l in loops(r) for x in l.iters]:
                    cur = {}
                    for e in ev:
                        if e[0] == 'w':
                            cur[strip(e[1])] = e[2]
                        if e[0] != 'call' or not e[1].startswith(HEAP):
                            continue
                        m, a = e[1][len(HEAP):], e[2]
                        if not a or a[0] != H:
                            continue
                        names.add(m)
                        if m in ('insert', 'update', 'increase_activity'):
                            w = cur.get(strip(act(R, a[1])))
                            good = varof(a[2]) is not None and eqs(varof(a[2]), a[1]) or w is not None and eqs(w, a[2])
                            j(good or (None if fuzzy(a) else False), 'the queue gets the stored activity of the variable', lambda: '%s: %s' % (m, [short(x) for x in a[1:]]))
                j.flush()
    missing = {'insert', 'pop'} - names
    rep.add('queue: every use is analysed', '', OK if not missing else UND, '' if not missing else 'not seen: %s' % sorted(missing))
    with rep.guard('writers of activities'):
        for fid in roots(P, E, [('F', REC + '::TSvar::activity')]):
            f = P.funcs[fid]
            if ctor(f):
                continue
            good = nm(f) == 'bump_var_activity'
            rep.add('activity written by %s' % nm(f), f.where(), OK if good else BAD, '' if good else 'activities change outside bumping')
        for fid in roots(P, E, [('F', R.q('_var_activity_increment'))]):
            f = P.funcs[fid]
            if ctor(f):
                continue
            good = nm(f) in ('bump_var_activity', 'repair_conflicts')
            rep.add('activity increment written by %s' % nm(f), f.where(), OK if good else BAD, '' if good else 'the increment changes outside bumping and repair')


# ------------------------------------------------------------ one bump
def num(t):
    """value of a number term"""
    if type(t) in (int, float):
        return float(t)
    if type(t) is tuple and t and t[0] in ('str', 'fl') and len(t) == 2:
        try:
            return float(t[1])
        except (TypeError, ValueError):
            return None
    return None


def factor(t, base):
    """c if t is base times the number c"""
    if type(t) is not tuple:
        return None
    if t[0] == '*' and len(t) == 3:
        for a, b in ((t[1], t[2]), (t[2], t[1])):
            if eqs(a, base) and num(b) is not None:
                return num(b)
    if t[0] == '/' and len(t) == 3 and eqs(t[1], base) and num(t[2]):
        return 1 / num(t[2])
    return None


def near(a, b):
    return a is not None and b is not None and abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def rescaled(r, st, isloc, bound, lo):
    """(covers, factor, loop) of the loop on this path that multiplies every element: isloc(loc) gives the index of the element written"""
    ev = st.cl[0]
    for l in loops(r):
        if not any(e[0] == 'L' and e[1:] == l.key for e in ev):
            continue
        idx, cs = set(), set()
        bad = False
        for s, e2 in l.iters:
            ws = [(e[1], e[2]) for e in e2 if e[0] == 'w' and isloc(e[1]) is not None]
            if len(ws) != 1:
                bad = True
                continue
            i = isloc(ws[0][0])
            idx.add(strip(i))
            cs.add(factor(ws[0][1], mem(ws[0][0])))
        if not idx:
            continue
        own = [i for i in idx if type(i) is tuple and i[0] == 'lv']
        if bad and any(not [1 for e in e2 if e[0] == 'w' and isloc(e[1]) is not None] and not any(e[0] in ('call', 'L', 'lib') for e in e2) for s, e2 in l.iters):
            return False, None, l
        if bad or len(idx) != 1 or len(cs) != 1 or not own:
            return None, None, l
        best = None
        ends = {y for f in st.facts if f[0] in ('<', '==') for k in (1, 2) for y in [f[k]] if strip(f[3 - k]) == strip(own[0])}
        names = {b[2][1][2] for b in bound}
        bound = list(bound) + [y for y in ends if type(y) is tuple and y[0] == 'lv' and y[-1] in names]
        if ends and all(type(y) is int or y[0] == 'p' or y[0] == 'call' and y[1] == 'std::size' and y[2][1][2].split('::')[-1] in ('_trail', '_conflicts', '_decision_index', '_free_chunks', '_deleted_clauses') for y in ends):
            return False, cs.pop(), l
        for b in bound:
            v = visits(l, st, own[0], b, lo)
            if v is True:
                return True, cs.pop(), l
            best = v if best is None or v is False else best
        return best, cs.pop(), l
    return None, None, None


def bump(P, E, R, rep):
    H, INC = R.v('_variable_heap'), R.f('_var_activity_increment')
    with rep.guard('bump_var_activity'):
        r = Run(P, E, R, rep, 'bump_var_activity', cls=AC, mode='CB', observer=False, stats=False, follow=('bump_var_activity',))
        j = J(rep, 'bumping a variable', r.where)
        v = r.p(0)
        A = act(R, v)
        some = False
        for st, ret in r.outs:
            ev = st.cl[0]
            w = [e[2] for e in ev if e[0] == 'w' and eqs(e[1], A)]
            want = mk('+', mem(A), mem(INC))
            j(bool(w) and eqs(w[0], want) or (None if w and fuzzy(w[0]) else False), 'the activity grows by the increment', lambda: '%s' % [short(x) for x in w])
            norm = [num(a[1]) for a in calls(ev, HEAP + 'normalize') if a[0] == H]
            inc = writes(ev, INC)
            wr = any(e[0] == 'L' for e in ev)
            here = [l for l in loops(r) if any(e[0] == 'L' and e[1:] == l.key for e in ev) and l.iters]
            if norm or inc or here:
                some = True
                cov, c, l = rescaled(r, st, lambda loc: loc[1][1][2] if loc[0] == 'F' and loc[2] == REC + '::TSvar::activity' and loc[1][0] == '&' and loc[1][1][0] == 'E' else None, [('call', 'std::size', R.v('_vars'))], 1)
                j(cov, 'a rescaling reaches every variable', lambda: short(tuple(st.facts)))
                ci = factor(inc[-1], mem(INC)) if len(inc) == 1 else None
                if c is not None:
                    j(near(c, ci) or (None if len(inc) == 1 and ci is None and fuzzy(inc[0]) else False), 'a rescaling keeps the ranking', lambda: 'variables by %s, increment %s' % (c, [short(x) for x in inc]))
                    j(len(norm) == 1 and near(norm[0], c) or False, 'a rescaling reaches the queue', lambda: 'variables by %s, queue %s' % (c, norm))
                    j(0 < c < 1, 'a rescaling lowers the activities', lambda: str(c))
                lim = [num(x) for f in st.facts for x in f[1:] if f[0] == '<' and num(x) is not None]
                j(any(x <= 1e300 for x in lim) if lim else None, 'a rescaling happens before activities overflow', lambda: '%s' % lim)
                ups = [i for i, e in enumerate(ev) if e[0] == 'call' and e[1] in (HEAP + 'increase_activity', HEAP + 'update')]
                nrm = [i for i, e in enumerate(ev) if e[0] == 'call' and e[1] == HEAP + 'normalize']
                if ups and nrm:
                    lk = [i for i, e in enumerate(ev) if e[0] == 'L' and l is not None and e[1:] == l.key]
                    oth = nrm + lk
                    j(max(oth) < min(ups) or min(oth) > max(ups) or False, 'the queue gets the rescaled activity', lambda: '%s' % [short(e) for e in ev])
            con = [v_ for k, v_ in st.facts.items() if eq0(k) is not None and has(k, lambda t: t[0] == 'r' and str(t[2]).endswith('heap::contains') or t[:2] == ('call', HEAP + 'contains'))]
            up = [a for n in ('increase_activity', 'update') for a in calls(ev, HEAP + n) if a[0] == H and eqs(a[1], v)]
            if con and con[-1] is False or not con:
                j(len(up) == 1 or (None if not con and not up and fuzzy(tuple(st.facts)) else False), 'a queued variable moves up with its activity', lambda: short(tuple(st.facts)))
        j(some, 'a rescaling happens before activities overflow', 'never rescaled')
        j.flush('the activity grows by the increment', 'a queued variable moves up with its activity', 'a rescaling keeps the ranking')


def decay(P, E, R, rep):
    INC, D = R.f('_var_activity_increment'), R.opt('var_activity_decay')
    for mode in ('CB', 'GB'):
        with rep.guard('decay'):
            r = Run(P, E, R, rep, 'repair_conflicts', cls=AC, mode=mode, observer=False, stats=False)
            j = J(rep, 'later conflicts count more [%s]' % mode, r.where)
            for st, ret in r.outs:
                ev = st.cl[0]
                rep_ = [e for e in ev if e[0] == 'call' and e[1] in ('level_repair', 'graph_repair')]
                w = writes(ev, INC)
                if not rep_:
                    continue
                good = len(w) == 1 and type(w[0]) is tuple and (w[0][0] == '/' and eqs(w[0][1], mem(INC)) and eqs(w[0][2], D) or w[0][0] == '*' and any(type(x) is tuple and x[0] == '/' and num(x[1]) == 1 and eqs(x[2], D) for x in w[0][1:]))
                uns = holdsx(st, mk('==', mem(R.f('_status')), 1)) if not good else None
                j(good or (None if len(w) == 1 and (fuzzy(w[0])) or uns and not w else False), 'the increment grows by the decay once per repair', lambda: '%s' % [short(x) for x in w])
            j.flush('the increment grows by the decay once per repair')


# ------------------------------------------------------------ which variables are bumped
def bumps(ev):
    return [a[0] for a in calls(ev, 'bump_var_activity')]


def adding(P, E, R, rep):
    with rep.guard('bumping the variables of a new clause'):
        r = Run(P, E, R, rep, 'internal_add_clause', cls=AC, mode='CB', proof=False, tracker=False, observer=False, stats=False)
        j = J(rep, 'adding a clause', r.where)
        inp, n, ext = r.p(0), r.p(1), r.p(3)
        lps = [l for l in loops(r) if any(bumps(ev) for _, ev in l.iters)]
        for st, ret in r.outs:
            ev = st.cl[0]
            j(not bumps(ev) or und(st), 'each variable of a given clause is bumped', lambda: '%s' % [short(x) for x in bumps(ev)])
            e = fact01(st, ext)
            here = [l for l in lps if any(x[0] == 'L' and x[1:] == l.key for x in ev)]
            if e is False:
                j(not here or None if all_guarded(here, ext) else False, 'only clauses given bump their variables', lambda: short(tuple(st.facts)))
                continue
            if e is None:
                j(None, 'each variable of a given clause is bumped', lambda: short(tuple(st.facts)))
                continue
            if len(here) != 1:
                j(None if here else False, 'each variable of a given clause is bumped', '%d loops' % len(here))
                continue
            l = here[0]
            ix = set()
            for s, e2 in l.iters:
                b = bumps(e2)
                xs = [x for x in b if type(x) is tuple and x[:2] == ('call', 'napsat::Tlit::var')]
                if len(b) != 1 or len(xs) != 1:
                    if fact01(s, ext) is not False:
                        j(False if not b or len(b) > 1 else None, 'each variable of a given clause is bumped', lambda: '%s' % [short(x) for x in b])
                    continue
                x = xs[0][2]
                if x[0] == 'm' and x[1][0] in ('E', 'D') and x[1][1] == inp or x[0] == 'm' and x[1][0] == 'E' and has(x[1][1], lambda t: t == inp):
                    ix.add(x[1][2])
                else:
                    j(None if fuzzy(x, lvs(x)) else False, 'each variable of a given clause is bumped', lambda: short(x))
            if len(ix) == 1:
                i = ix.pop()
                j(visits(l, st, i, n), 'each variable of a given clause is bumped', lambda: short(i))
            else:
                j(None, 'each variable of a given clause is bumped', lambda: '%s' % ix)
        if not lps:
            j(False, 'each variable of a given clause is bumped', 'nothing is bumped')
        j.flush('each variable of a given clause is bumped')


def all_guarded(here, ext):
    return all(not bumps(ev) or fact01(s, ext) is True for l in here for s, ev in l.iters)


def analysis(P, E, R, rep, mode):
    with rep.guard('bumping in conflict analysis [%s]' % mode):
        gb = mode == 'GB'
        r = Run(P, E, R, rep, 'analyze_conflict_impl', cls=LC, mode=mode, proof=False, tracker=False, observer=False, stats=False, pred=lambda f: ('bitset' in f.params[0]['t']) == gb)
        j = J(rep, 'conflict analysis bumps [%s]' % mode, r.where)
        T = R.v('_trail')
        BU = 'each variable resolved on or kept from a lower level is bumped'
        ON = 'only variables met by the analysis are bumped'
        for l in loops(r):
            for st, ev in l.iters:
                b = [strip(x) for x in bumps(ev)]
                off = [x for x, v in marks(ev) if v == 0 and elem(x, T) is not None]
                put = [v for _, v in bufw(R, ev)]
                for x in off:
                    an = analysed(st, x)
                    res = any(v == 1 for _, v in marks(ev)) or any(e[0] == 'L' for e in ev)
                    need = res or an is False
                    if need:
                        k = b.count(strip(vart(x)))
                        j(k == 1 or (None if any(not isvar(y) for y in b) or an is None and not res else False), BU, lambda: '%d for %s' % (k, short(x)))
                for y in b:
                    x = y[2] if type(y) is tuple and y[:2] == ('call', 'napsat::Tlit::var') else None
                    if x is None or elem(x, T) is None:
                        j(None if x is None or fuzzy(x, lvs(x)) else False, ON, lambda: short(y))
                        continue
                    mk_ = truth(st, x, 'marked')
                    j(mk_ is True or (None if mk_ is None else False), ON, lambda: short(tuple(st.facts)))
        for st, ret in r.outs:
            b = bumps(st.cl[0])
            j(not b or None, ON, lambda: '%s' % [short(x) for x in b])
        j.flush(BU, ON)


def isvar(y):
    return type(y) is tuple and y[:2] == ('call', 'napsat::Tlit::var')


def lvs(t):
    return tuple(walk(t, lambda x: x[0] == 'lv'))
