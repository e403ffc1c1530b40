"""S03: clauses given to the solver are stored with exactly their literals (minus those false at root), and take effect at once."""
from rules.solver import *
from rules.luby import ev as evalt

UND_, TRUE_, FALSE_ = 'undefined', 'true', 'false'
NMS = {'undefined': UND_, 'satisfied': TRUE_, 'falsified': FALSE_}


def check(P, E, rep):
    R = Sol(P)
    utility(P, E, R, rep)
    select(P, E, R, rep)
    dedup(P, E, R, rep)
    slot(P, E, R, rep)
    for mode in ('NCB', 'CB', 'LSCB', 'GB'):
        intake(P, E, R, rep, mode)
    api(P, E, R, rep)


def lstate(st, lit, ver=None):
    """values the literal can have on this path (as first read)"""
    poss, stamp = {UND_, TRUE_, FALSE_}, None
    for k, v in st.facts.items():
        t = eq0(k)
        if type(t) is tuple and t[0] == 'call' and t[1].startswith('napsat::Tlit::') and t[1].split('::')[-1] in NMS and eqs(t[2], lit):
            if stamp is None:
                stamp = t[2:]
            if t[2:] != stamp:
                continue
            w = NMS[t[1].split('::')[-1]]
            poss = poss - {w} if v else poss & {w}
    return poss


def eq0(k):
    if k[0] == '==' and (k[1] == 0 or k[2] == 0):
        return k[2] if k[1] == 0 else k[1]
    return None


def level_of(t, lit):
    """t is the level of the literal's variable"""
    return type(t) is tuple and t[0] == 'm' and t[1][0] == 'F' and t[1][2].endswith('TSvar::level') and eqs(t[1][1], ('&', ('E', SELF.v('_vars'), vart(lit), '')))


def level_at(t):
    """t is the level of some stored literal"""
    return type(t) is tuple and t[0] == 'm' and t[1][0] == 'F' and t[1][2].endswith('TSvar::level') and has(t[1][1], lambda x: x[0] == 'E' and has(x[1], lambda y: y[0] == 'F' and str(y[-1]).endswith('TSclause::lits')))


SELF = None


def root(st, lit):
    """the literal's level is root on this path (None: not decided)"""
    r = None
    for k, v in st.facts.items():
        t = eq0(k)
        if t is not None and level_of(t, lit):
            r = v
        elif k[0] == '<' and k[1] == 0 and level_of(k[2], lit) or k[0] == '<' and k[2] == 1 and level_of(k[1], lit):
            r = v if k[2] == 1 else not v
    return r


class CLC(SC):
    keepfacts = True


def trueatom(t):
    return type(t) is tuple and t[:2] == ('call', 'napsat::Tlit::satisfied')


def ctx_call(ev, names):
    return [(e[1], e[2]) for e in ev if e[0] == 'call' and e[1] in names]


# ------------------------------------------------------------ intake of a clause
def intake(P, E, R, rep, mode):
    global SELF
    SELF = R
    with rep.guard('clause intake [%s]' % mode):
        r = Run(P, E, R, rep, 'internal_add_clause', cls=CLC, mode=mode, proof=False, tracker=False, observer=False, stats=False)
        if len(r.f.params) != 5:
            raise AnalysisError('anchor vanished: parameters of internal_add_clause')
        j = J(rep, 'clause intake [%s]' % mode, r.where)
        inp, n = r.p(0), r.p(1)
        lps = loops(r)
        counts, flags = scan(j, R, r, lps, inp, n)
        copies(j, R, r, lps, inp, n)
        for st, ret in r.outs:
            if ret == UNDEFC or holds(st, mk('==', ret, UNDEFC)):
                dropped(j, R, r, st, inp, n, flags)
            else:
                stored(j, R, r, st, ret, inp, n, counts, flags, mode)
        j.flush('the root scan looks at every literal', 'a clause is dropped only if true at root or tautological', 'a unit clause implies its literal', 'an empty clause makes the problem unsatisfiable',
                'a falsified clause is recorded as a conflict', 'two literals are watched')


def scan_lit(st, inp):
    """literal of the input examined by a root-level test"""
    for k in st.facts:
        for t in find(k, lambda t: t[0] == 'E' and t[1] == inp and type(t[2]) is tuple and t[2][0] == 'lv'):
            return t[2]
    return None


def scan(j, R, r, lps, inp, n):
    """the loops that look for literals at root: which variables count them, which flag a true one"""
    counts, flags, found = {}, {}, False
    for l in lps:
        if any(e[0] == 'w' for st, ev in l.iters for e in ev):
            continue
        for st, ev in l.iters:
            idx = scan_lit(st, inp)
            if idx is None or not l.own(idx):
                continue
            lit = ('m', ('E', inp, idx, ''), 0)
            rt = root(st, lit)
            if rt is None:
                continue
            found = True
            j(l.init(idx) == {0} and eqs(l.next(st, idx), mk('+', idx, 1)) or None, 'the root scan looks at every literal', lambda: '%s -> %s' % (l.init(idx), short(l.next(st, idx))))
            for lv in lvars(l) - {idx}:
                nx = l.next(st, lv)
                if eqs(nx, mk('+', lv, 1)) and rt:
                    counts.setdefault(lv, [l]).append('inc')
                elif rt and nx != lv or not rt and nx != lv:
                    for tv in (0, 1):
                        poss = lstate(st, lit)
                        if rt and (poss == {TRUE_} and tv == 0 or TRUE_ not in poss and tv == 1):
                            continue
                        want = int(bool(rt and tv))
                        for got in values(sub(nx, lambda t: tv if trueatom(t) else 0 if t == lv else None)):
                            flags.setdefault(lv, []).append((want, got, st))
            poss = lstate(st, lit)
            j.scan = getattr(j, 'scan', []) + [(l, idx, rt, st)]
    # a counter counts exactly the literals at root
    for lv in counts:
        for l, idx, rt, st in j.scan:
            if l is counts[lv][0]:
                nx = l.next(st, lv)
                j(eqs(nx, mk('+', lv, 1)) if rt else eqs(nx, lv), 'only literals at root are left out', lambda: 'the count goes to %s at level %s root' % (short(nx), '=' if rt else '!='))
        j(counts[lv][0].init(lv) == {0} or None, 'only literals at root are left out', 'count starts at %s' % counts[lv][0].init(lv))
    for lv, obs in list(flags.items()):
        if any(w != g and g is not None for w, g, _ in obs) and not any(g and w for w, g, _ in obs):
            del flags[lv]
    if not found:
        j(None, 'the root scan looks at every literal', 'no loop examines the levels of the literals given')
    return set(counts), flags


def values(t, depth=4):
    """values of a term whose undecided comparisons may go either way"""
    v = evalt(t, {})
    if v is not None or depth == 0:
        return {v}
    for c in find(t, lambda x: x[0] in ('<', '==') and len(x) == 3):
        if evalt(c, {}) is None:
            return {x for b in (0, 1) for x in values(sub(t, lambda y: b if y == c else None), depth - 1)}
    return {None}


def lv_of(l, lid):
    return ('lv', 'b' + absint.S(l.key[0], l.key[2]), lid)


def sub(t, f):
    r = f(t) if type(t) is tuple else None
    if r is not None:
        return r
    return tuple(sub(x, f) for x in t) if type(t) is tuple else t


def copies(j, R, r, lps, inp, n):
    """the loop that stores the literals keeps exactly those not at root"""
    for l in lps:
        its = []
        for st, ev in l.iters:
            idx = scan_lit(st, inp)
            if idx is None or not l.own(idx):
                continue
            lit = ('m', ('E', inp, idx, ''), 0)
            if root(st, lit) is None:
                continue
            its.append((st, [e for e in ev if e[0] == 'w' and e[1][0] == 'E'], idx, lit))
        if not any(ws for _, ws, _, _ in its):
            continue
        for st, ws, idx, lit in its:
            rt = root(st, lit)
            if rt:
                j(not ws, 'literals false at root are not stored', lambda: 'stores %s' % [short(e[2]) for e in ws])
                continue
            good = len(ws) == 1 and eqs(ws[0][2], lit)
            j(good or False, 'all other literals are stored', lambda: 'stores %s for %s' % ([short(e[2]) for e in ws], short(lit)))
            if good:
                d = ws[0][1][2]
                if type(d) is tuple and l.own(d):
                    j(l.init(d) == {0} and eqs(l.next(st, d), mk('+', d, 1)), 'all other literals are stored', lambda: 'position %s, then %s' % (l.init(d), short(l.next(st, d))))
                else:
                    j(None, 'all other literals are stored', 'position ' + short(d))
        for st, ws, idx, lit in its:
            rt = root(st, lit)
            for st2, ws2, idx2, lit2 in its:
                for e in ws2:
                    d = e[1][2]
                    if type(d) is tuple and l.own(d) and rt and d != idx:
                        j(eqs(l.next(st, d), d), 'literals false at root are not stored', lambda: 'the position moves on without a literal stored')


def justified_drop(st, R, inp, flags, lps=()):
    for k, v in st.facts.items():
        t = eq0(k)
        if t is None:
            continue
        if not v and t in flags:
            return True
        if v and type(t) is tuple and t[0] in ('r', 'call') and has(t, lambda x: 'cleanup_duplicate_literals' in str(x)):
            return True
    for k, v in st.facts.items():
        t = eq0(k)
        if not v and trueatom(t) and has(t, lambda x: x[0] == 'E' and x[1] == inp) and root(st, t[2]):
            return True
    return False


def dropped(j, R, r, st, inp, n, flags):
    ok = justified_drop(st, R, inp, flags)
    if not ok and any(has(k, lambda t: t[0] in ('r', 'app', 'u') and 'cleanup' not in str(t)) for k in st.facts):
        ok = None
    j(ok, 'a clause is dropped only if true at root or tautological', lambda: short_facts(st))
    for lv, obs in flags.items():
        for w, g, s in obs:
            j(None if g is None else w == g, 'a clause counts as true at root only for a literal true at root', lambda: 'flag %s where it should be %s: %s' % (g, w, short_facts(s)))
    j(not ctx_call(st.cl[0], ('imply_literal', 'watch_lit', 'watch_lit_bin', 'reimply_literal', 'reimply_literal_root', 'repair_conflicts')) and not pushes(st.cl[0], R.v('_conflicts')),
      'a dropped clause has no effect', lambda: '%s' % [c[0] for c in ctx_call(st.cl[0], ANCHORS)])
    ids = [v for v, _ in pushes(st.cl[0], R.v('_deleted_clauses'))]
    for x in ids:
        j(ids.count(x) == 1, 'an identifier is given back once', short(x))
        d = st.cl[0]
        w = [e[2] for e in d if e[0] == 'w' and eqs(e[1], field(R, x, 'deleted'))]
        j(w and w[-1] == 1 or False, 'a dropped clause is marked deleted', short(x))


def short_facts(st):
    return '; '.join('%s%s' % ('' if v else 'not ', short(k)) for k, v in st.facts.items() if k[0] != 'lb')[:500]


def nonzero(st, flags):
    """a flag not known to be zero"""
    return [f for f in flags if not any(eq0(k) == f and v for k, v in st.facts.items())]


def stored(j, R, r, st, ret, inp, n, counts, flags, mode):
    ev = st.cl[0]
    cut = 0
    nz = nonzero(st, flags)
    j(not nz or None, 'a clause true at root is not stored', lambda: short_facts(st)) if not (nz and any(any(w and g for w, g, _ in flags[f]) for f in nz)) else \
        j(False, 'a clause true at root is not stored', lambda: 'the flag %s is not examined: %s' % (short(nz[0]), short_facts(st)))
    if not flags:
        # without a flag no scanning iteration may pass over a literal true at root
        for l, idx, rt, s in getattr(j, 'scan', []):
            if rt:
                j(TRUE_ not in lstate(s, ('m', ('E', inp, idx, ''), 0)) or False, 'a clause true at root is not stored', lambda: 'the scan goes on after a literal at root: ' + short_facts(s))
    sz = r.fin(st, ('F', ('&', ('E', R.v('_clauses'), ret, 'napsat::NapSAT::TSclause')), REC + '::TSclause::size'))
    ws = [e[2] for e in ev if e[0] == 'w' and eqs(e[1], field(R, ret, 'size'))]
    if ws:
        sz = ws[-1]
    j(bool(ws), 'the size of the clause is set', 'no write of the size')
    clean = calls(ev, 'cleanup_duplicate_literals')
    okz = None
    if clean:
        okz = type(sz) is tuple and sz[0] == 'r' and 'cleanup' in str(sz)
        a = clean[-1]
        j(kept(st, a[1], n, counts, ws), 'duplicates are looked for in the literals kept', lambda: 'size given %s' % short(a[1]))
    else:
        okz = kept(st, sz, n, counts, [])
        small = leq(st, n, 1) or holds(st, mk('<', 1, n)) is False or holds(st, mk('==', sz, 0)) or leq(st, sz, 1)
        j(small or False, 'duplicates are removed from every clause that can have some', lambda: short_facts(st))
    j(okz, 'the clause is as long as the literals kept', lambda: 'size ' + short(sz))
    for fl, want in (('deleted', 0), ('learned', r.p(2)), ('external', r.p(3))):
        w = [e[2] for e in ev if e[0] == 'w' and eqs(e[1], field(R, ret, fl))]
        j(bool(w) and (same(st, w[-1], want) or eqs(w[-1], mk('!=', want, 0)) or (None if fuzzy(w[-1]) else False)), 'a stored clause is alive and labelled as asked', lambda: '%s := %s' % (fl, [short(x) for x in w]))
    # copied literals
    mc = [e for e in ev if e[0] == 'lib' and e[1] in ('memcpy', 'memmove', 'copy', 'copy_n')]
    if mc:
        for e in mc:
            zero = any(eq0(k) in counts and v for k, v in st.facts.items())
            j(zero or (False if counts else None), 'a clause is copied whole only if nothing was left out', lambda: short_facts(st))
            if e[1] in ('memcpy', 'memmove'):
                a = e[2]
                cnt = a[2] if len(a) > 2 else None
                j(eqs(a[1], inp) and type(cnt) is tuple and cnt[0] == '*' and 4 in cnt and any(eqs(x, n) or kept(st, x, n, counts, []) for x in cnt[1:]) or (None if cnt is None or fuzzy(cnt, counts) else False),
                  'all literals are copied', lambda: 'memcpy ' + str([short(x) for x in a]))
    elif not any(e[0] == 'L' and any(l.key == e[1:] for l, i2, rt, s in []) for e in ev):
        pass
    # what happens next depends on the number of literals
    for k in (0, 1, 2, 3):
        t = st.copy()
        atom = mk('==', sz, k) if k < 3 else None
        if atom is not None:
            h = holds(t, atom)
            if h is False:
                continue
            if h is None and not t.assume(atom, True):
                continue
        else:
            if any(holds(t, mk('==', sz, x)) for x in (0, 1, 2)):
                continue
            for x in (0, 1, 2):
                t.assume(mk('==', sz, x), False)
        sure = holds(st, mk('==', sz, k)) if k < 3 else True
        dispatch(j, R, r, t, ev, ret, k, mode, sz, flags)


def kept(st, t, n, counts, ws):
    """t is the number of literals left: input size minus counted"""
    if type(t) is tuple and t[0] == '-' and eqs(t[1], n) and t[2] in counts:
        return True
    if eqs(t, n) and any(eq0(k) in counts and v for k, v in st.facts.items()):
        return True
    if eqs(t, n):
        return False if counts else None
    if type(t) is int:
        return None
    return None if fuzzy(t, ()) else False


def dispatch(j, R, r, st, ev, cl, k, mode, sz, flags):
    full = ev
    imp, rei, reir = calls(ev, 'imply_literal'), calls(ev, 'reimply_literal'), calls(ev, 'reimply_literal_root')
    conf = pushes(ev, R.v('_conflicts'))
    stw = [e[2] for e in ev if e[0] == 'w' and e[1] == R.f('_status')]
    names = [e[1] for e in ev if e[0] == 'call']
    if k == 0:
        j(1 in stw[-1:] or False, 'an empty clause makes the problem unsatisfiable', lambda: 'status %s: %s' % (stw, short_facts(st)))
        j(not imp and not conf and 'watch_lit' not in names, 'an empty clause is not watched', '')
        return
    L0, L1 = lit_at(R, cl, 0), lit_at(R, cl, 1)
    s0 = lstate(st, L0)
    isl0 = lambda a: eqs(a, L0) or type(a) is tuple and a[0] == 'm' and a[1][0] == 'E' and a[1][2] == 0
    isl1 = lambda a: eqs(a, L1) or type(a) is tuple and a[0] == 'm' and a[1][0] == 'E' and a[1][2] == 1
    for a in imp + rei + reir:
        j(isl0(a[0]) and a[1] == cl or (None if fuzzy(a[0]) and not has(a[0], lambda t: t[0] == 'E') else False), 'the literal implied is the first of the clause, the clause its reason',
          lambda: '%s by %s' % (short(a[0]), short(a[1])))
    for v, _ in conf:
        j(v == cl, 'the conflict recorded is the clause added', short(v))
    if k == 1:
        j(not [c for c in ('watch_lit', 'watch_lit_bin') if c in names], 'a unit clause is not watched', '')
        if s0 == {UND_}:
            j(len(imp) == 1, 'a unit clause implies its literal', lambda: '%d implications: %s' % (len(imp), short_facts(st)))
            if mode == 'NCB':
                b = calls(ev, 'backtrack')
                j(b and b[0][0] == 0 and names.index('backtrack') < names.index('imply_literal') if imp else None, 'without chronological backtracking a unit clause is implied at root', lambda: '%s' % names)
        elif s0 == {TRUE_}:
            j(not imp, 'only unassigned literals are implied', short_facts(st))
            rt = root(st, L0)
            j(rt is True or len(reir) == 1, 'a true literal becomes a root literal by a unit clause', lambda: short_facts(st))
        elif s0 == {FALSE_}:
            j(not imp and not reir and not rei, 'only unassigned literals are implied', short_facts(st))
            j(len(conf) == 1, 'a falsified clause is recorded as a conflict', lambda: short_facts(st))
            j('repair_conflicts' in names or mode == 'GB' and None, 'a falsified clause is repaired at once', lambda: short_facts(st))
        else:
            # the value was not examined: nothing may have been demanded
            if UND_ in s0:
                j(len(imp) == 1 or False, 'a unit clause implies its literal', lambda: 'possible values %s: %s' % (sorted(s0), short_facts(st)))
            elif FALSE_ in s0:
                j(len(conf) == 1 or False, 'a falsified clause is recorded as a conflict', lambda: short_facts(st))
        return
    # two or more literals
    sel = calls(ev, 'select_watched_literals')
    j(len(sel) >= 1 and eqs(sel[-1][1], sz) or False, 'the literals to watch are chosen among all', lambda: '%s' % [short(a[1]) for a in sel])
    wb, wl = calls(ev, 'watch_lit_bin'), calls(ev, 'watch_lit')
    if wb:
        j(k == 2 and len(wb) == 1 and wb[0][0] == cl and not wl, 'two literals are watched', lambda: 'size %d: watched as binary' % k)
    else:
        j(k >= 3 and len(wl) == 2 and all(a[1] == cl for a in wl) and sorted([0 if isl0(a[0]) else 1 if isl1(a[0]) else 2 for a in wl]) == [0, 1], 'two literals are watched',
          lambda: 'size %d: %s' % (k, [[short(x) for x in a] for a in wl]))
    if sel and (wb or wl):
        j(names.index('select_watched_literals') < min(names.index(x) for x in ('watch_lit', 'watch_lit_bin') if x in names), 'the literals to watch are chosen before watching', '%s' % names)
    w = [e[2] for e in ev if e[0] == 'w' and eqs(e[1], field(R, cl, 'watched'))]
    if w:
        wv = w[-1]
        g = wv if type(wv) is int else holds(st, wv)
        if type(wv) is tuple and g is None:
            o = [x for x in find(wv, lambda t: t[0] == '-' and len(t) == 3 and eqs(t[1], r.p(1)) or t[0] == 'r')]
            g = None
            if o:
                vals = [evalt(sub(wv, lambda t: q if t in o else None), {}) for q in (2, 3, 9)]
                g = None if None in vals else all(vals)
        j(g if g is None else bool(g), 'a clause of two or more literals is marked watched', short(wv))
    s1 = lstate(st, L1)
    if FALSE_ not in s1:
        j(not imp and not conf and not rei, 'a clause with two literals not false has no consequence', lambda: '%s: %s' % (names, short_facts(st)))
        return
    if s1 != {FALSE_}:
        if imp or conf:
            j(False, 'a clause has a consequence only if all literals but one are false', lambda: short_facts(st))
        else:
            j(False, 'a clause whose other literals are false takes effect', lambda: 'the value of the second literal is not examined: ' + short_facts(st))
        return
    if s0 == {UND_}:
        j(len(imp) == 1 and not conf, 'a clause unit under the assignment implies its literal', lambda: short_facts(st))
        if mode == 'NCB':
            b = calls(ev, 'backtrack')
            j(bool(b) and level_of(b[0][0], L1) and imp and names.index('backtrack') < names.index('imply_literal') or (None if b and fuzzy(b[0][0]) and not level_at(b[0][0]) else False),
              'without chronological backtracking the implication happens at the level of the other literals', lambda: '%s %s' % (names, [short(x[0]) for x in b]))
    elif s0 == {FALSE_}:
        j(len(conf) == 1 and not imp, 'a falsified clause is recorded as a conflict', lambda: short_facts(st))
        if mode != 'GB':
            j('repair_conflicts' in names, 'a falsified clause is repaired at once', lambda: short_facts(st))
    elif s0 == {TRUE_}:
        j(not imp and not conf, 'only unassigned literals are implied', short_facts(st))
        j(len(rei) == 1, 'a clause that implies a true literal is considered as its reason', lambda: short_facts(st))
    else:
        done = {UND_: len(imp) == 1, FALSE_: len(conf) == 1, TRUE_: len(rei) == 1}
        j(all(done[x] for x in s0) and len([1 for x in (imp, conf) if x]) <= 1 or False, 'a clause whose other literals are false takes effect', lambda: 'possible values %s of the first literal: %s' % (sorted(s0), short_facts(st)))


# ------------------------------------------------------------ identifiers and storage
def slot(P, E, R, rep):
    with rep.guard('clause identifiers'):
        r = Run(P, E, R, rep, 'next_clause_id', proof=False, tracker=False, observer=False, stats=False)
        j = J(rep, 'clause identifiers', r.where)
        D, CL, SZ, AC = R.v('_deleted_clauses'), R.v('_clauses'), R.v('_clauses_sizes'), R.v('_activities')
        for st, ret in r.outs:
            ev = st.cl[0]
            pops = [e for e in ev if e[0] == 'pop' and e[1] == D]
            ps = {n: pushes(ev, v) for n, v in (('c', CL), ('s', SZ), ('a', AC))}
            news = [e for e in ev if e[0] == 'new']
            empty = None
            for k, v in st.facts.items():
                t = eq0(k)
                if t == ('call', 'std::size', D):
                    empty = v
            if ps['c']:
                j(all(len(x) == 1 for x in ps.values()), 'a new identifier extends all clause tables', lambda: str({k: len(v) for k, v in ps.items()}))
                j(eqs(ret, ps['c'][0][1]) or (None if fuzzy(ret) else False), 'a new identifier is the position of the new clause', short(ret))
                j(not pops, 'an identifier is either new or reused', '')
                if ps['s']:
                    j(room(st, ps['s'][0][0], news, r.p(0)), 'the recorded capacity is the storage allocated', lambda: '%s for %s' % (short(ps['s'][0][0]), [short(e[2]) for e in news]))
                continue
            j(empty is False or False, 'a reused identifier was given back before', lambda: short_facts(st))
            j(len(pops) == 1, 'a reused identifier is taken off the list of free ones', '%d' % len(pops))
            back = ('m', ('E', D, mk('-', ('call', 'std::size', D), 1), ''), 0)
            other = type(ret) is tuple and ret[0] == 'm' and ret[1][0] == 'E' and ret[1][1] == D
            j(eqs(ret, back) or (False if other else None), 'a reused identifier is the one taken off the list', lambda: short(ret))
            cap = ('m', ('E', SZ, ret, ''), 0)
            lw = [e[2] for e in ev if e[0] == 'w' and eqs(e[1], field(R, ret, 'lits'))]
            sw = [e[2] for e in ev if e[0] == 'w' and e[1][0] == 'E' and e[1][1] == SZ]
            fits = None
            for k, v in st.facts.items():
                if k[0] == '<' and eqs(k[1], cap) and eqs(k[2], r.p(0)):
                    fits = not v
                elif k[0] == '<' and eqs(k[2], cap) and eqs(k[1], r.p(0)):
                    fits = v or fits
            if not lw:
                j(fits or False, 'a reused identifier has room for the clause', lambda: short_facts(st))
                if sw:
                    j(False, 'the recorded capacity is the storage allocated', 'capacity changed without allocation')
            else:
                j(type(lw[-1]) is tuple and lw[-1][0] == 'new' and room(st, sw[-1] if sw else cap, [e for e in news if e[1] == lw[-1]], r.p(0)) or False, 'the recorded capacity is the storage allocated',
                  lambda: '%s for %s' % ([short(x) for x in sw], [short(e[2]) for e in news]))
                dels = [e for e in ev if e[0] == 'del']
                j(len(dels) == 1 and dels[0][2], 'replaced storage is released', '%d' % len(dels))
        j.flush('a new identifier extends all clause tables', 'a reused identifier has room for the clause')


def room(st, cap, news, size):
    """the capacity recorded is no more than allocated, and the allocation no less than asked"""
    if len(news) != 1:
        return None if news else False
    a = news[0][2]
    a = a[0] if type(a) is tuple and a else None
    if a is None:
        return None
    if a == cap and a == size:
        return True
    if a == cap and (leq(st, size, a) or atleast(a, size)):
        return True
    if eqs(cap, size) and atleast(a, size):
        return True
    return None if fuzzy(a) or fuzzy(cap) else False


def atleast(a, b):
    return a == b or type(a) is tuple and (a[0] in ('+', '*') and any(x == b for x in a[1:]) and any(type(x) is int and x >= 1 for x in a[1:]) or a[0] == 'max' and b in a[1:])


# ------------------------------------------------------------ duplicates
def dedup(P, E, R, rep):
    with rep.guard('duplicate literals'):
        r = Run(P, E, R, rep, 'cleanup_duplicate_literals', proof=False, tracker=False, observer=False, stats=False)
        j = J(rep, 'duplicate literals', r.where)
        A, n = r.p(0), r.p(1)
        MK = lambda lit: ('F', ('&', ('E', R.v('_vars'), vart(lit), '')), REC + '::TSvar::marked')
        pos = src = main = None
        for l in loops(r):
            for st, ev in l.iters:
                for e in ev:
                    if e[0] == 'w' and e[1][0] == 'E' and e[1][1] == A and type(e[2]) is tuple and e[2][0] == 'm' and e[2][1][0] == 'E' and e[2][1][1] == A:
                        pos, src, main = e[1][2], e[2][1][2], l
        if main is None or not main.own(src) or not main.own(pos):
            j(None, 'literals seen first are kept in place', 'no compacting loop recognised')
            j.flush()
            return
        lit = ('m', ('E', A, src, ''), 0)
        j(main.init(pos) == {0} and main.init(src) == {0} or main.init(pos) | main.init(src) <= {('iter', A, 0), A} or None, 'the scan starts at the first literal', '%s %s' % (main.init(pos), main.init(src)))
        nx = lambda st, lv: main.next(st, lv)

        def idx(t):
            return t[2] if type(t) is tuple and t[0] == 'iter' else t
        for st, ev in main.iters:
            mk_ = marked(st, MK(lit))
            ws = [e for e in ev if e[0] == 'w' and e[1][0] == 'E' and e[1][1] == A]
            ms = [e for e in ev if e[0] == 'w' and e[1][0] == 'F' and e[1][2].endswith('::marked')]
            s2, p2 = idx(nx(st, src)), idx(nx(st, pos))
            j(eqs(s2, mk('+', src, 1)) or None, 'every literal is looked at', short(s2))
            if mk_ is False:
                j(len(ws) == 1 and eqs(ws[0][2], lit) and eqs(p2, mk('+', pos, 1)), 'literals seen first are kept in place', lambda: '%d stores, position %s' % (len(ws), short(p2)))
                j(len(ms) == 1 and eqs(ms[0][1], MK(lit)) and ms[0][2] == 1, 'a literal kept is marked as seen', lambda: '%s' % [short(e[1]) for e in ms])
            elif mk_ is True:
                j(not ws and eqs(p2, pos), 'a literal seen before is left out', lambda: 'position %s' % short(p2))
                marks = [e for e in ev if e[0] == 'L']
                neg = looks_for_negation(r, main, A, src, pos, st)
                j(neg, 'a clause with a literal and its negation is found', lambda: 'no search for the negation among the literals kept')
            else:
                j(None, 'whether a literal was seen is decided by its mark', short_facts(st))
        for st, ret in r.outs:
            if not any(e[0] == 'L' and e[1:] == main.key for e in st.cl[0]):
                j(ret == 0 and leq(st, n, 0) or ret == n and leq(st, n, 1) or holds(st, mk('==', n, 0)) or None, 'the size returned is the number of literals kept', lambda: short_facts(st))
                continue
            if ret == 0:
                ok = any(v and k[0] == '==' and has(k, lambda t: neg_of(t, lit)) for k, v in st.facts.items()) or any(eq0(k) in flagsof(r, main) and not v for k, v in st.facts.items())
                j(ok or (None if any(has(k, lambda t: t[0] in ('r', 'app')) for k in st.facts) else False), 'a clause is a tautology only with a literal and its negation', lambda: short_facts(st))
            else:
                x = idx(ret)
                good = eqs(x, pos) or type(ret) is tuple and ret[0] == '-' and eqs(idx(ret[1]), pos)
                j(good or (None if fuzzy(ret, (pos, src)) else False), 'the size returned is the number of literals kept', lambda: short(ret))
        # marks are taken back
        un = []
        for l in loops(r):
            if l is main:
                continue
            for st, ev in l.iters:
                for e in ev:
                    if e[0] == 'w' and e[1][0] == 'F' and e[1][2].endswith('::marked') and e[2] == 0:
                        un.append((l, st, e))
        j(bool(un) or False, 'all marks are removed at the end', 'no loop unmarks')
        for l, st, e in un:
            t = [x[2] for x in find(e[1], lambda t: t[0] == 'E' and t[1] == A)]
            k = t[0] if t else None
            ok = k is not None and l.own(k) and {0 if x == A else idx(x) for x in l.init(k)} == {0} and eqs(idx(l.next(st, k)), mk('+', k, 1))
            j(ok or None, 'all marks are removed at the end', lambda: short(e[1]))
            bound = [f for f, v in st.facts.items() if f[0] == '<' and v and has(f[1], lambda t: t == k)]
            j(any(eqs(idx(f[2]), pos) or eqs(idx(f[2]), n) for f in bound) or (False if any(type(idx(f[2])) is tuple and idx(f[2])[0] == '-' and pos in idx(f[2]) for f in bound) else None), 'all marks are removed at the end', lambda: str([short(f) for f in bound]))
        for st, ret in r.outs:
            ev = st.cl[0]
            if not any(e[0] == 'L' and e[1:] == main.key for e in ev):
                continue
            j(any(e[0] == 'L' and any(l.key == e[1:] for l, _, _ in un) for e in ev) or (False if un else None), 'all marks are removed at the end', 'an exit leaves marks')
        j.flush('literals seen first are kept in place', 'a literal seen before is left out', 'a clause with a literal and its negation is found', 'the size returned is the number of literals kept')


def flagsof(r, main):
    return lvars(main)


def marked(st, loc):
    for k, v in st.facts.items():
        t = eq0(k)
        if type(t) is tuple and t[0] == 'm' and eqs(t[1], loc):
            return not v
    return None


def neg_of(t, lit):
    return type(t) is tuple and (t[0] == 'call' and 'operator~' in t[1] and eqs(t[2], lit) or t[0] in ('~', '~lit') and eqs(t[1], lit) or t[0] == '^' and 1 in t[1:] and any(eqs(x, lit) for x in t[1:]) or
                                t[0] == 'call' and len(t) > 2 and '~' in t[1] and eqs(t[2], lit))


def looks_for_negation(r, main, A, src, pos, st):
    """before passing over a marked literal its negation was searched among the literals kept so far"""
    lit = ('m', ('E', A, src, ''), 0)
    for l in loops(r):
        if l is main:
            continue
        for s, ev in l.iters:
            for k, v in s.facts.items():
                if k[0] == '==' and not v and has(k, lambda t: neg_of(t, lit)):
                    ks = [x[2] for x in find(k, lambda t: t[0] == 'E' and t[1] == A) if l.own(x[2])]
                    if not ks:
                        continue
                    kk = ks[0]
                    i0 = {0 if x == A else x[2] if type(x) is tuple and x[0] == 'iter' else x for x in l.init(kk)}
                    nx = l.next(s, kk)
                    nx = nx[2] if type(nx) is tuple and nx[0] == 'iter' else nx
                    bnd = [f for f, b in s.facts.items() if f[0] == '<' and b and has(f[1], lambda t: t == kk) or f[0] == '==' and not b and has(f, lambda t: t == kk) and not has(f, lambda t: neg_of(t, lit))]
                    ix = lambda t: t[2] if type(t) is tuple and t[0] == 'iter' else t
                    up = any(kk in (ix(f[1]), ix(f[2])) and (pos in (ix(f[1]), ix(f[2])) or src in (ix(f[1]), ix(f[2]))) for f in bnd)
                    off = any(has(f, lambda t: t == pos) or has(f, lambda t: t == src) for f in bnd)
                    if i0 == {0} and eqs(nx, mk('+', kk, 1)):
                        return True if up else False if off else None
                    return None if fuzzy(nx, (kk,)) else False
    for k in st.facts:
        if has(k, lambda t: t[0] in ('r', 'app', 'u')):
            return None
    return False


# ------------------------------------------------------------ choice of watched literals
def utility(P, E, R, rep):
    with rep.guard('watch utility'):
        for mode in ('CB', 'GB'):
            r = Run(P, E, R, rep, 'utility_heuristic', mode=mode, follow=('utility_heuristic',))
            m = Run(P, E, R, rep, 'max_utility_heuristic', mode=mode, follow=('max_utility_heuristic',))
            j = J(rep, 'utility of a literal to watch [%s]' % mode, r.where)

            def value(run, L, lvl, s):
                out = set()

                def leaf(t):
                    if t[:2] == ('call', 'std::size') and t[2] == R.v('_decision_index'):
                        return L
                    if t[0] == 'm' and t[1][0] == 'F' and t[1][2].endswith('TSvar::level'):
                        return lvl
                    if t[0] == 'call' and t[1] == 'bitset::count':
                        return lvl
                    if t[0] == 'call' and t[1].startswith('napsat::Tlit::') and t[1].split('::')[-1] in NMS:
                        return int(NMS[t[1].split('::')[-1]] == s)
                    return None
                for st, ret in run.outs:
                    if any(bool(g) != v for k, v in st.facts.items() for g in [evalt(sub(k, leaf), {})] if g is not None):
                        continue
                    out.add(evalt(sub(ret, leaf), {}))
                return out.pop() if len(out) == 1 else None
            bad = und = 0
            for L in range(0, 9):
                vals = {}
                for s in (UND_, TRUE_, FALSE_):
                    for lvl in ([0] if s == UND_ else range(0, L + 1)):
                        vals[s, lvl] = value(r, L, lvl, s)
                mx = value(m, L, 0, UND_)
                if None in vals.values() or mx is None:
                    j(None, 'a literal not false is worth more than any false one', 'value not computable')
                    continue
                hi = max(v for (s, _), v in vals.items() if s == FALSE_)
                j(all(v > hi for (s, _), v in vals.items() if s != FALSE_), 'a literal not false is worth more than any false one', lambda: 'with %d levels: %s' % (L, vals))
                if mode == 'CB':
                    j(all(vals[FALSE_, a] < vals[FALSE_, a + 1] for a in range(L)), 'among false literals the higher level is worth more', lambda: 'with %d levels: %s' % (L, vals))
                    j(all(vals[TRUE_, a] >= vals[UND_, 0] for a in range(L + 1)), 'a true literal is worth at least an unassigned one', lambda: 'with %d levels: %s' % (L, vals))
                    j(all(vals[TRUE_, a] > vals[TRUE_, a + 1] for a in range(L)), 'among true literals the lower level is worth more', lambda: 'with %d levels: %s' % (L, vals))
                j(mx > hi, 'the best value is that of a literal not false', lambda: 'with %d levels: %s, best %s' % (L, vals, mx))
            j.flush('a literal not false is worth more than any false one')


class SW(SC):
    """keeps the literal array of the caller as positions: records which version each write replaces"""
    keeplocals = True

    def write(self, eng, st, loc, val, site):
        if loc[0] == 'E' and loc[1] == ('p', 0, ''):
            w = eng.read(st, ('E', loc[1], ('p', 9, 'probe'), loc[3]))
            self.emit(st, 'w', loc, val, w[2] if type(w) is tuple and w[0] == 'm' else None)
            return
        SC.write(self, eng, st, loc, val, site)


def select(P, E, R, rep):
    with rep.guard('choice of watched literals'):
        r = Run(P, E, R, rep, 'select_watched_literals', cls=SW)
        j = J(rep, 'choice of watched literals', r.where)
        A, n = r.p(0), r.p(1)
        U = lambda i: pure('utility_heuristic', ('m', ('E', A, i, ''), 0))
        isu = lambda t: is_pure(t, 'utility_heuristic') and t[3][0] == 'm' and t[3][1][0] == 'E' and t[3][1][1] == A
        main = None
        for l in loops(r):
            for st, ev in l.iters:
                for k in st.facts:
                    for t in find(k, isu):
                        if l.own(t[3][1][2]):
                            main, cur = l, t[3][1][2]
        if main is None:
            j(None, 'the two best literals are remembered', 'no loop compares the literals')
            j.flush()
            return
        j(main.init(cur) == {2} and all(eqs(main.next(st, cur), mk('+', cur, 1)) for st, _ in main.iters) or
          (False if all(type(x) is int for x in main.init(cur)) and max(main.init(cur)) > 2 else None), 'every literal is compared', '%s' % main.init(cur))
        # roles: which loop variables hold positions, which their values
        lvs = lvars(main) - {cur}
        seen = set()
        for st, _ in main.iters:
            for lv in lvs:
                if eqs(main.next(st, lv), cur):
                    seen.add(lv)
        idxs = [lv for lv in lvs if lv in seen]
        # the better one gives its place to the other
        hi = lo = None
        for st, _ in main.iters:
            for a in idxs:
                for b in idxs:
                    if a != b and eqs(main.next(st, a), cur) and eqs(main.next(st, b), a):
                        hi, lo = a, b
        if hi is None:
            j(None if len(idxs) != 2 else False, 'the two best literals are remembered', 'positions %s' % [short(x) for x in idxs])
            j.flush()
            return
        vals = {}
        for e in main.entries:
            for lv in lvs - {hi, lo}:
                v = e.store.get(('L', lv[2], main.key[0]))
                for x in (hi, lo):
                    i = e.store.get(('L', x[2], main.key[0]))
                    if type(v) is tuple and type(i) is int and eqs(v, U(i)):
                        vals.setdefault(lv, []).append(x)
        role = {lv: xs[0] for lv, xs in vals.items() if len(set(xs)) == 1 and len(xs) == len(main.entries)}
        uh = [k for k, v in role.items() if v == hi]
        ul = [k for k, v in role.items() if v == lo]
        cached = len(uh) == 1 and len(ul) == 1
        for e in main.entries:
            a, b = e.store.get(('L', hi[2], main.key[0])), e.store.get(('L', lo[2], main.key[0]))
            j({a, b} == {0, 1} or (None if not (type(a) is int and type(b) is int) else False), 'the first two literals are the first candidates', '%s %s' % (a, b))
            if {a, b} == {0, 1}:
                o = order(e, [U(a), U(b)])
                j((o is not None and all(x[0] >= x[1] for x in o)) or False, 'the better of the first two is the first candidate', lambda: short_facts(e))
            if not cached:
                vs = {short(e.store.get(('L', lv[2], main.key[0]))) for lv in lvs - {hi, lo}}
        if not cached:
            j(None, 'the two best literals are remembered', 'values of the candidates not recognised: %s' % {short(k): [short(x) for x in v] for k, v in vals.items()})
            # a value that belongs to the other candidate at entry is a mistake, not a style
            for lv, xs in vals.items():
                if len(set(xs)) == 2:
                    j(False, 'the two best literals are remembered', 'the value kept belongs to either candidate')
            j.flush()
            return
        uh, ul = uh[0], ul[0]
        for st, ev in main.iters:
            uc = [t for k in st.facts for t in find(k, lambda t: isu(t) and t[3][1][2] == cur)]
            uc = uc[0] if uc else U(cur)
            nh, nl, nuh, nul = [main.next(st, x) for x in (hi, lo, uh, ul)]
            val = {hi: 0, lo: 1, cur: 2}
            tv = {uh: 0, ul: 1, uc: 2}
            for o in order(st, [uh, ul, uc]):
                if o[0] < o[1]:
                    continue
                ph, pl = val.get(nh), val.get(nl)
                if ph is None or pl is None:
                    j(None, 'the two best literals are remembered', '%s %s' % (short(nh), short(nl)))
                    continue
                rest = [x for x in (0, 1, 2) if x not in (ph, pl)]
                good = ph != pl and o[ph] >= o[pl] and all(o[pl] >= o[x] for x in rest)
                j(good, 'the two best literals are remembered', lambda: 'values (first %d, second %d, next %d): keeps %s, %s' % (o[0], o[1], o[2], short(nh), short(nl)))
                vh, vl = tv.get(nuh), tv.get(nul)
                good2 = vh is not None and vl is not None and o[vh] == o[ph] and o[vl] == o[pl]
                j(good2 or (None if vh is None or vl is None else False), 'the values remembered are those of the candidates', lambda: '%s %s' % (short(nuh), short(nul)))
        for st, ret in r.outs:
            h, s = hi, lo
            # candidates at the exit
            ev = st.cl[0]
            i = max([k for k, e in enumerate(ev) if e[0] == 'L'] + [-1])
            ws = [e for e in ev[i + 1:] if e[0] == 'w' and e[1][0] == 'E' and e[1][1] == A]
            hv, sv = [st.store.get(('L', x[2], main.key[0]), x) for x in (hi, lo)]
            placed(j, st, ws, A, hi, lo, cur, hv, sv, ul)
            stop = holds(st, mk('<', cur, n)) is False or leq(st, n, cur)
            if not stop:
                und = any(eq0(k) is not None and not v and has(k, lambda t: t[:2] == ('call', 'napsat::Tlit::undefined')) for k, v in st.facts.items())
                mx = lambda t: is_pure(t, 'max_utility_heuristic') or type(t) is tuple and t[0] == 'r' and 'max_utility' in str(t)
                second = st.store.get(('L', ul[2], main.key[0]), ul)
                best = any(k[0] == '==' and v and (mx(k[1]) and k[2] == second or mx(k[2]) and k[1] == second) or
                           k[0] == '<' and not v and mx(k[2]) and k[1] == second or k[0] == '<' and v and mx(k[1]) and k[2] == second for k, v in st.facts.items())
                good = und_ok(st, hi, lo, A, sv) if und else best
                j(good or False, 'the search stops early only when no better literal exists', lambda: short_facts(st))
        j.flush('the two best literals are remembered', 'the chosen literals come first', 'every literal is compared')


def und_ok(st, hi, lo, A, sv):
    """the literal known to be unassigned is the second candidate"""
    for k, v in st.facts.items():
        t = eq0(k)
        if not v and type(t) is tuple and t[:2] == ('call', 'napsat::Tlit::undefined'):
            x = t[2]
            if x[0] == 'm' and x[1][0] == 'E' and x[1][2] in (lo, sv):
                return True
            return False
    return None


def order(st, terms):
    """relative orders of the terms allowed by the facts of the path"""
    import itertools
    out = []
    key = [strip(t) for t in terms]
    idx = lambda t: key.index(strip(t)) if strip(t) in key else None
    for o in itertools.product(range(len(terms)), repeat=len(terms)):
        ok = True
        for k, v in st.facts.items():
            if k[0] in ('<', '==') and len(k) == 3:
                a, b = idx(k[1]), idx(k[2])
                if a is None or b is None:
                    continue
                if ((o[a] < o[b]) if k[0] == '<' else (o[a] == o[b])) != v:
                    ok = False
        if ok:
            out.append(o)
    return out


def placed(j, st, ws, A, hi, lo, cur, hv, sv, ul):
    """replay the final exchanges on small arrays: the candidates end up first, nothing is lost"""
    for a in range(5):
        for b in range(5):
            for c in range(2, 6):
                if a == b:
                    continue
                env = {hi: a, lo: b, cur: c}
                H, Sx = evalt(sub(hv, lambda t: env.get(t)), {}), evalt(sub(sv, lambda t: env.get(t)), {})
                if H is None or Sx is None:
                    j(None, 'the chosen literals come first', '%s %s' % (short(hv), short(sv)))
                    return
                if H == Sx:
                    continue
                if any(x is not None and bool(x) != v for k, v in st.facts.items() if not has(k, lambda t: t[0] == 'call') for x in [evalt(sub(k, lambda t: env.get(t)), {})]):
                    continue
                arr, snaps = list(range(7)), {}

                def rd(t):
                    if t in env:
                        return env[t]
                    if t[0] == 'm' and t[1][0] == 'E' and t[1][1] == A:
                        i = evalt(sub(t[1][2], rd), {})
                        s = snaps.get(t[2], arr)
                        return s[i] if type(i) is int and 0 <= i < 7 else None
                    return None
                good = True
                for e in ws:
                    if len(e) > 3:
                        snaps[e[3]] = list(arr)
                    i, v = evalt(sub(e[1][2], rd), {}), evalt(sub(e[2], rd), {})
                    if i is None or v is None or not 0 <= i < 7:
                        good = None
                        break
                    arr[i] = v
                if good is None:
                    j(None, 'the chosen literals come first', 'exchange not recognised')
                    return
                j(arr[0] == H and arr[1] == Sx and sorted(arr) == list(range(7)), 'the chosen literals come first', lambda: 'best at %d, second at %d: order afterwards %s (%s)' % (H, Sx, arr, short_facts(st)))


def lv_used(l, A, lv):
    return any(has(k, lambda t: t[0] == 'E' and t[1] == A and t[2] == lv) for st, _ in l.iters for k in list(st.facts) + list(st.store.values()))


# ------------------------------------------------------------ public interface
def api(P, E, R, rep):
    B, N, CAP = R.f('_lit_buffer'), R.f('_lit_buffer_size'), R.f('_lit_buffer_capacity')
    with rep.guard('clause building'):
        r = Run(P, E, R, rep, 'start_clause')
        j = J(rep, 'clause building', r.where)
        for st, ret in r.outs:
            j(r.fin(st, N) == 0, 'a new clause starts empty', short(r.fin(st, N)))
        j.flush('a new clause starts empty')
        r = Run(P, E, R, rep, 'add_literal')
        j = J(rep, 'clause building', r.where)
        for st, ret in r.outs:
            ev = st.cl[0]
            j(any(eqs(a[0], vart(r.p(0))) for a in calls(ev, 'var_allocate')) or None if not calls(ev, 'var_allocate') else True, 'the variable of a literal given exists', '')
            w = [e for e in ev if e[0] == 'w' and e[1][0] == 'E' and e[1][3].endswith('Tlit')]
            nw = [e[2] for e in ev if e[0] == 'w' and e[1] == N]
            n0 = strip(mem(N))
            j(len(w) == 1 and eqs(w[0][1][2], n0) and eqs(w[0][2], r.p(0)), 'a literal is appended to the clause under construction', lambda: '%s' % [(short(e[1]), short(e[2])) for e in w])
            j(len(nw) == 1 and eqs(nw[0], mk('+', n0, 1)), 'the clause under construction grows by one', lambda: '%s' % [short(x) for x in nw])
            full = [v for k, v in st.facts.items() if k[0] == '==' and has(k, lambda t: t == N) and has(k, lambda t: t == CAP)] + \
                [not v for k, v in st.facts.items() if k[0] == '<' and has(k[1], lambda t: t == N) and has(k[2], lambda t: t == CAP)]
            news = [e for e in ev if e[0] == 'new' and e[3]]
            j(full and (not full[-1] or bool(news)) or False, 'there is room for the literal', lambda: short_facts(st))
        j.flush('a literal is appended to the clause under construction')
        r = Run(P, E, R, rep, 'finalize_clause')
        j = J(rep, 'clause building', r.where)
        for st, ret in r.outs:
            c = calls(st.cl[0], 'internal_add_clause')
            j(len(c) == 1 and eqs(c[0][0], mem(B)) and eqs(c[0][1], mem(N)) and c[0][2] == 0 and c[0][3] == 1, 'finishing a clause adds the literals given so far as an input clause',
              lambda: '%s' % [[short(x) for x in a] for a in c])
            j(type(ret) is tuple and ret[0] == 'r' and 'internal_add_clause' in str(ret), 'the identifier of the clause is returned', short(ret))
            j(st.store.get(R.f('_writing_clause')) == 0, 'no clause is under construction afterwards', '')
        j.flush('finishing a clause adds the literals given so far as an input clause')
        r = Run(P, E, R, rep, 'add_clause')
        j = J(rep, 'adding a clause', r.where)
        mx = None
        for l in loops(r):
            for st, ev in l.iters:
                for lv in lvars(l):
                    nx = l.next(st, lv)
                    v = [k for k in find(tuple(st.facts), lambda t: t[:2] == ('call', 'napsat::Tlit::var'))] or [t for t in find(nx, lambda t: t[:2] == ('call', 'napsat::Tlit::var'))]
                    if not v:
                        continue
                    if nx != lv and has(nx, lambda t: t[:2] == ('call', 'napsat::Tlit::var')):
                        mx = lv
            if mx is not None:
                cur = [lv for lv in lvars(l) if all(eqs(l.next(st, lv), mk('+', lv, 1)) for st, _ in l.iters)]
                for st, ev in l.iters:
                    v = [vart(('m', ('E', r.p(0), c, ''), 0)) for c in cur if lv_used(l, r.p(0), c)] or find(tuple(st.facts), lambda t: t[:2] == ('call', 'napsat::Tlit::var'))
                    if not v:
                        j(None, 'the largest variable of the clause is found', '')
                        continue
                    nx, a = l.next(st, mx), v[0]
                    if type(nx) is tuple and nx[0] == 'max':
                        ok = mx in nx[1:] and any(eqs(x, a) for x in nx[1:])
                    else:
                        ok = all((o[1] >= o[0] if eqs(nx, a) else o[0] >= o[1] if nx == mx else False) for o in order(st, [mx, a]))
                    j(ok, 'the largest variable of the clause is found', lambda: '%s with %s' % (short(nx), short_facts(st)))
        for st, ret in r.outs:
            ev = st.cl[0]
            va, c = calls(ev, 'var_allocate'), calls(ev, 'internal_add_clause')
            names = [e[1] for e in ev if e[0] == 'call']
            inloop = any(calls(e2, 'var_allocate') for l in loops(r) for _, e2 in l.iters)
            j(len(c) == 1 and c[0][0] == r.p(0) and c[0][1] == r.p(1) and c[0][2] == 0 and c[0][3] == 1, 'the clause given is added as an input clause', lambda: '%s' % [[short(x) for x in a] for a in c])
            j(inloop or bool(va) and (va[0][0] == mx or (None if mx is None else False)) and names.index('var_allocate') < names.index('internal_add_clause'), 'the variables of the clause exist before it is added', lambda: '%s' % names)
            j(type(ret) is tuple and ret[0] == 'r' and 'internal_add_clause' in str(ret), 'the identifier of the clause is returned', short(ret))
        j.flush('the clause given is added as an input clause')
