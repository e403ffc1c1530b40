"""S01: assignments, the trail and the decision levels agree, through every assignment and every backtrack."""
from rules.solver import *

UNITS = ['src/solver/NapSAT-imply.cpp', 'src/solver/NapSAT-backtrack.cpp', 'src/solver/NapSAT.cpp', 'src/solver/NapSAT-utils.cpp']
LAZYC = 0xFFFFFFFE
ERRL = UNDEFC - 1


def check(P, E, rep):
    R = Sol(P)
    for m in MODES:
        imply(P, E, R, rep, m)
        unassign(P, E, R, rep, m)
        if m != 'GB-lcm':
            back(P, E, R, rep, m)
    for m in ('GB', 'GB-lcm'):
        back_graph(P, E, R, rep, m)
    lazy_level(P, E, R, rep)
    restart(P, E, R, rep)


def imply(P, E, R, rep, m):
    with rep.guard('assign ' + m):
        r = Run(P, E, R, rep, 'imply_literal', mode=m, tracker=False)
        j = J(rep, 'assigning a literal [%s]' % m, r.where)
        lit, why = r.p(0), r.p(1)
        T, D = R.v('_trail'), R.v('_decision_index')
        for st, _ in r.outs:
            ev = st.cl[0]
            if holds(st, mk('==', why, LAZYC)):
                continue
            dec = holds(st, mk('==', why, UNDEFC))
            if dec is None:
                j(None, 'decision or implication is told apart')
                continue
            V = lambda f: R.var(vart(lit), f)
            ps = pushes(ev, T)
            j(len(ps) == 1 and eqt(st, ps[0][0], lit), 'the literal is appended to the trail exactly once', lambda: 'trail pushes: %s' % [short(p[0]) for p in ps])
            for s in split(st, mk('==', pol(lit), 0), mk('==', pol(lit), 1)):
                neg = holds(s, mk('==', pol(lit), 0))
                if neg == holds(s, mk('==', pol(lit), 1)):
                    continue
                val = last(s, ev, r, V('state'))
                j(eqt(s, val, 0 if neg else 1) or eqs(val, pol(lit)) or None if fuzzy(val) else same(s, val, 0 if neg else 1) or eqs(val, pol(lit)),
                  'the variable takes the value of the literal', lambda: 'polarity %d stores state %s' % (not neg, short(val)))
                ph = last(s, ev, r, V('phase_cache'))
                j(same(s, ph, 0 if neg else 1) or eqs(ph, pol(lit)) or (None if fuzzy(ph) else False), 'the saved phase is the value assigned', lambda: 'polarity %d saves %s' % (not neg, short(ph)))
            rs = last(st, ev, r, V('reason'))
            j(eqt(st, rs, why), 'the reason is recorded', lambda: 'reason stored: ' + short(rs))
            pr = last(st, ev, r, V('propagated'))
            j(eqt(st, pr, 0), 'the literal awaits propagation', lambda: 'propagated flag: ' + short(pr))
            w = writes(ev, V('level'))
            dp = pushes(ev, D)
            if dec:
                j(len(dp) == 1 and (ps and (eqt(st, dp[0][0], ps[0][1]))), 'a decision opens one level at its trail position', lambda: 'decision index pushes: %s' % [short(x[0]) for x in dp])
                if w and dp:
                    want = mk('+', dp[0][1], 1)
                    j(same(st, w[-1], want) or (None if fuzzy(w[-1]) else False), 'a decision gets the level it opens', lambda: 'level stored: ' + short(w[-1]))
                else:
                    j(False, 'a decision gets the level it opens', 'no level stored')
                if m.startswith('GB'):
                    pp_ = [e for e in ev if e[0] == 'pop' and e[1] == R.v('_free_chunks')]
                    j(len(pp_) == 1, 'a decision takes one free chunk', '%d chunks taken' % len(pp_))
                    sets = [e for e in ev if e[0] == 'bits' and e[1] == 'set' and e[2] == ('&', V('chunks'))]
                    j(len(sets) == 1 and (len(sets[0][3]) < 2 or sets[0][3][1] == 1), 'a decision is tagged with its chunk', lambda: 'chunk tags: %d' % len(sets))
                    cd = [e for e in ev if e[0] == 'w' and e[1][0] == 'F' and e[1][2].endswith('TSchunk::decision')]
                    j(len(cd) == 1 and (eqs(cd[0][2], vart(lit)) or None), 'the chunk knows its decision')
                    if sets and cd and pp_:
                        ck = sets[0][3][0]
                        j(eqs(cd[0][1][1][1][2], ck) or None, 'the tag and the chunk record are the same chunk')
                        want = ('m', ('E', R.v('_free_chunks'), pp_[0][2], 'unsigned int'), 0)
                        j(eqs(ck, want) or (None if fuzzy(ck) else False), 'the chunk taken is the one removed from the free list', lambda: short(ck))
            else:
                j(not dp, 'an implied literal opens no level', 'decision index grows')
                if not w:
                    j(False, 'an implied literal gets the level its reason implies', 'no level stored')
                else:
                    unit = holds(st, mk('==', csize(R, why), 1))
                    lv = w[-1]
                    if unit:
                        j(eqt(st, lv, 0), 'a unit reason implies at the root level', lambda: short(lv))
                    elif unit is False:
                        if m.startswith('GB'):
                            j(is_pure(lv, 'implication_level', why) or (None if fuzzy(lv) else False), 'an implied literal gets the level its reason implies', lambda: short(lv))
                            j(any(eqs(c[0], lit) for c in calls(ev, 'recompute_chunks')) or None if not any(e[0] == 'bits' and e[2] == ('&', V('chunks')) for e in ev) and not calls(ev, 'recompute_chunks')
                              and False else bool(calls(ev, 'recompute_chunks')) or any(e[0] == 'bits' and e[2] == ('&', V('chunks')) for e in ev), 'an implied literal inherits the chunks of its reason', 'chunks not set')
                        else:
                            want = R.var(vart(lit_at(R, why, 1)), 'level')
                            j(eqs(lv, mem(want)) or same(st, lv, mem(want)) or (None if fuzzy(lv) else False), 'an implied literal gets the level its reason implies', lambda: 'level stored: ' + short(lv))
                    else:
                        j(None, 'a unit reason implies at the root level', 'size of the reason not examined')
            ord_ = last(st, ev, r, V('order'))
            w = writes(ev, R.f('_current_order'))
            j(len(w) == 1 and (eqs(mk('+', ord_, 1), w[0]) or None), 'the assignment order grows', lambda: 'order %s, next %s' % (short(ord_), [short(x) for x in w])) if w else \
                j(False, 'the assignment order grows', 'order counter not advanced')
            if not eqs(ord_, mem(R.f('_current_order'))) and not fuzzy(ord_) and w:
                j(False, 'the assignment order grows', 'order %s' % short(ord_))
        j.flush('the literal is appended to the trail exactly once', 'a decision gets the level it opens', 'an implied literal gets the level its reason implies')


def unassign(P, E, R, rep, m):
    with rep.guard('unassign ' + m):
        r = Run(P, E, R, rep, 'var_unassign', mode=m)
        j = J(rep, 'unassigning a variable [%s]' % m, r.where)
        v = r.p(0)
        V = lambda f: R.var(v, f)
        H = R.v('_variable_heap')
        for st, _ in r.outs:
            ev = st.cl[0]
            for f, want, txt in (('state', 2, 'no value'), ('reason', UNDEFC, 'no reason'), ('level', UNDEFC, 'no level'), ('propagated', 0, 'not propagated'),
                                 ('missed_lower_implication', UNDEFC, 'no lazy reason')):
                got = last(st, ev, r, V(f))
                j(eqt(st, got, want), 'it is left with ' + txt, lambda: '%s is %s' % (f, short(got)))
            ins = [c for c in calls(ev, 'napsat::utils::heap::insert') if c[0] == H]
            inh = [v for k, v in st.facts.items() if has(k, lambda t: t[:2] == ('call', 'napsat::utils::heap::contains'))]
            ok = (len(ins) == 1 and eqs(ins[0][1], v)) or (not ins and False)
            if not ins:
                con = [(k, x) for k, x in st.facts.items() if has(k, lambda t: t[:1] == ('r',) and 'contains' in str(t) or t[:2] == ('call', 'napsat::utils::heap::contains'))]
                ok = bool(con) and holds_contains(con) or (None if [c for e in ev if e[0] == 'call' and 'utils::heap' in e[1] and 'contains' not in e[1]] else False)
            j(ok, 'it is available to decisions again', lambda: 'not inserted in the heap on a path where it may be absent')
            if ins:
                act = ins[0][2] if len(ins[0]) > 2 else None
                j(act is not None and (eqs(act, mem(V('activity'))) or (None if fuzzy(act) else False)), 'it re-enters the heap with its activity', lambda: short(act))
            if m.startswith('GB'):
                for b in ('chunks', 'cross_chunks'):
                    cl = [e for e in ev if e[0] == 'bits' and e[2] == ('&', V(b)) and e[1] in ('clear', 'operator=')]
                    j(bool(cl), 'its chunk sets are emptied', b + ' not cleared')
                fp = pushes(ev, R.v('_free_chunks'))
                dec = holds(st, mk('==', mem(V('reason')), UNDEFC))
                if dec:
                    j(len(fp) == 1, 'the chunk of a decision is freed once', '%d chunks freed' % len(fp))
                    for f in ('decision', 'is_reimplied'):
                        wr = [e for e in ev if e[0] == 'w' and e[1][0] == 'F' and e[1][2].endswith('TSchunk::' + f)]
                        want = 0 if f == 'is_reimplied' else None
                        j(bool(wr) and (want is None or eqt(st, wr[-1][2], want)), 'the chunk of a decision is reset', f + ' not reset')
                    mi = [e for e in ev if e[0] == 'bits' and e[2][1][0] == 'F' and e[2][1][2].endswith('missed_implication')]
                    j(bool(mi), 'the chunk of a decision is reset', 'missed implication kept')
                elif dec is False:
                    j(not fp, 'only decisions own a chunk', 'an implied literal frees a chunk')
        j.flush('it is left with no value')


def holds_contains(con):
    """the facts say the heap contains the variable"""
    for k, x in con:
        if k[0] == '==' and k[2] == 0 or k[0] == '==' and k[1] == 0:
            if x is False:
                return True
        elif k[0] != '==' and x:
            return True
    return False


def trail_elem(R, t):
    """index of the trail element a term reads, if it is one"""
    if type(t) is tuple and t[0] == 'm' and t[1][0] == 'E' and t[1][1] == R.v('_trail'):
        return t[1][2]
    if type(t) is tuple and t[0] == 'm' and t[1][0] == 'D' and type(t[1][1]) is tuple:
        return t[1][1]
    return None


def back(P, E, R, rep, m):
    with rep.guard('backtrack ' + m):
        r = Run(P, E, R, rep, 'backtrack', j=0, mode=m, pred=lambda f: 'Tlevel' in f.params[0]['t'])
        j = J(rep, 'backtracking to a level [%s]' % m, r.where)
        L = r.p(0)
        T, D = R.v('_trail'), R.v('_decision_index')
        nlev = ('call', 'std::size', D)
        below = mk('<', L, nlev)
        ls = loops(r)
        # which loops unassign, which buffers are drained
        drained, scan, drainloop = set(), [], []
        for lp in ls:
            for st, ev in lp.iters:
                for c in calls(ev, 'var_unassign'):
                    src = [e for e in find(c[0], lambda t: t[0] == 'E' and len(t) > 2 and type(t[1]) is tuple and t[1][0] == '&' and t[1][1][0] == 'F') if e[1] in [R.v(n) for n in R.fields] and e[1] not in (T,)]
                    for s in src:
                        if s[1] not in (R.v('_vars'),):
                            drained.add(s[1])
                            if lp not in drainloop:
                                drainloop.append(lp)
        for lp in ls:
            if any(calls(ev, 'var_unassign') and lp not in drainloop or any(e[0] == 'push' and e[1] in drained for e in ev) for st, ev in lp.iters):
                scan.append(lp)
        j(len(scan) == 1 or None, 'one pass over the trail decides what is kept', '%d loops' % len(scan))
        start = mem(('E', D, L, 'unsigned long'))
        outs = [(st, v) for st, v in r.outs]
        if len(scan) == 1:
            lp = scan[0]
            wpos = set()
            for st, ev in lp.iters:
                ut = [c[0] for c in calls(ev, 'var_unassign')] + [e[2] for e in ev if e[0] == 'push' and e[1] in drained]
                kept = [e for e in ev if e[0] == 'w' and e[1][0] == 'E' and e[1][1] == T]
                lits = set(find((tuple(ut), tuple(st.facts), tuple(e[2] for e in kept)), lambda t: t[0] == 'm' and t[1][0] == 'E' and t[1][1] == T and lp.own(t[1][2])))
                lits = {strip(t): t for t in lits}
                if len(lits) != 1:
                    j(None, 'a literal above the target level is unassigned', 'which literal an iteration examines is unclear')
                    continue
                lit = list(lits.values())[0]
                lvl = [k for k in st.facts if k[0] == '<' and has(k, lambda t: t[0] == 'm' and t[1][0] == 'F' and t[1][2].endswith('TSvar::level') and eqs(t[1], R.var(vart(lit), 'level')))]
                above = None
                for k in lvl:
                    if k[1] == L:
                        above = st.facts[k]
                    elif k[2] == L and st.facts[k]:
                        above = False
                    elif k[2] == mk('+', L, 1):
                        above = not st.facts[k]
                if above is None:
                    lv = [k for k in st.facts if k[0] == '<' and has(k, lambda t: t[0] == 'm' and t[1][0] == 'F' and t[1][2].endswith('TSvar::level'))]
                    j(False if lvl and not fuzzy([k for k in lvl]) else None, 'a literal above the target level is unassigned', lambda: 'an iteration does not compare the level with the target: ' + short(tuple(lvl or lv)))
                    continue
                if above:
                    j(len(ut) == 1 and (eqs(ut[0], vart(lit)) or (None if fuzzy(strip(ut[0]), ()) and not eqs(ut[0], vart(lit)) and not has(ut[0], lambda t: t == lit) else False)),
                      'a literal above the target level is unassigned', lambda: 'unassigned: %s when %s' % ([short(x) for x in ut], facts(st, lp.entries[0])))
                    j(not kept, 'a literal above the target level leaves the trail', lambda: 'kept: %s' % facts(st, lp.entries[0]))
                else:
                    j(not ut, 'a literal at or below the target level stays assigned', lambda: 'unassigned when %s' % facts(st, lp.entries[0]))
                    j(len(kept) == 1 and (eqs(kept[0][2], lit) or (None if not has(kept[0][2], lambda t: t[0] == 'lv') else False)), 'a literal at or below the target level stays on the trail', lambda: 'trail writes: %s' % [short(e[2]) for e in kept])
                    if kept and lp.own(kept[0][1][2]):
                        p = kept[0][1][2]
                        wpos.add(p)
                        nx = lp.next(st, p)
                        j(nx is not None and (nx == mk('+', p, 1)) or (None if nx is None else False), 'kept literals stay in order', lambda: 'write position becomes %s' % short(nx))
                i = lit[1][2]
                nx = lp.next(st, i)
                j(None if nx is None else nx == mk('+', i, 1), 'every literal past the restore point is examined', lambda: 'index becomes ' + short(nx))
                for b in lp.init(i):
                    j(eqs(b, start) or (None if b is None or fuzzy(b) else b == 0), 'every literal past the restore point is examined', lambda: 'scan starts at ' + short(b))
                # lazily found lower implications
                if m in ('LSCB',):
                    lz = mem(R.var(vart(lit), 'missed_lower_implication'))
                    buf = [e for e in ev if e[0] == 'push' and e[1] == R.v('_reimplication_backtrack_buffer')]
                    low = None
                    for k, v in st.facts.items():
                        if k[0] == '<' and k[1] == L and is_pure(k[2], 'lit_lazy_level', lit):
                            low = not v
                    if above and low:
                        j(len(buf) == 1 and (eqs(buf[0][2], lz) or None), 'a literal implied lower down is put back', lambda: 'not queued for re-implication when %s' % facts(st, lp.entries[0]))
                    elif above and low is False:
                        j(not buf, 'only a literal implied lower down is put back', 'queued although its lower reason is undone')
                        w = writes(ev, R.var(vart(lit), 'missed_lower_implication'))
                    elif above:
                        j(None, 'a literal implied lower down is put back', 'lazy level not examined')
                    else:
                        j(not buf, 'only a literal implied lower down is put back', 'queued although it stays assigned')
            for p in wpos:
                for b in lp.init(p):
                    j(eqs(b, start) or (None if b is None or fuzzy(b) else False), 'kept literals start at the restore point', lambda: short(b))
        for lp in drainloop:
            for st, ev in lp.iters:
                u = calls(ev, 'var_unassign')
                j(len(u) == 1 or None, 'every queued variable is unassigned', '%d' % len(u))
        if drained:
            for st, v in outs:
                for b in drained:
                    if any(e[0] == 'L' for e in st.cl[0]):
                        n = r.C.vsize(st, b)
                        j(same(st, n, 0) or (None if any(e[0] == 'clear' and e[1] == b for e in st.cl[0]) or fuzzy(n, [n]) else None), 'every queued variable is unassigned', 'queue not drained')
        for st, v in outs:
            ev = st.cl[0]
            bel = holds(st, below)
            rs = [e for e in ev if e[0] == 'resize' and e[1] == D]
            rt = [e for e in ev if e[0] == 'resize' and e[1] == T]
            if not rs and not rt:
                if bel is None and any(k[0] == '<' and has(k, lambda t: t == L) and has(k, lambda t: t == nlev) for k in st.facts):
                    bel = st.copy().assume(below, True)
                j(bel is False or (None if bel is None else False), 'nothing is undone only when the target is the current level', lambda: 'returns without undoing when ' + facts(st))
                continue
            j(len(rs) == 1 and eqt(st, rs[-1][2], L), 'the levels above the target are dropped', lambda: 'levels resized to %s' % [short(x[2]) for x in rs])
            if len(scan) == 1:
                lp = scan[0]
                wn = [x for x in wpos]
                j(len(rt) == 1 and (rt[0][2] in wpos or (None if not wpos else (False if lp.own(rt[0][2]) or not fuzzy(rt[0][2]) else None))), 'the trail keeps exactly the literals kept', lambda: 'trail resized to %s' % [short(x[2]) for x in rt])
            sy = writes(ev, R.f('_sync_validity_index'))
            j(bool(sy) and (has(sy[-1], lambda t: eqs(t, start)) or None if sy else False), 'the synchronised prefix is cut at the restore point', lambda: str([short(x) for x in sy]))
            s0 = holds(st, mk('==', mem(R.f('_status')), 0))
            if m == 'LSCB':
                buf = R.v('_reimplication_backtrack_buffer')
                em = r.C.kv(st, ('n', buf))
                j(any(e[0] == 'clear' and e[1] == buf for e in ev) or same(st, em, 0) is True or holds(st, mk('<', 0, em)) is False or None, 'the re-implication queue is emptied', short(em))
        # propagation head
        if m in ('CB', 'LSCB'):
            ok = None
            for st, v in outs:
                if not any(e[0] == 'resize' and e[1] == D for e in st.cl[0]):
                    continue
                head = r.fin(st, R.f('_n_propagated_lits'))
                le = holdsx(st, mk('<', start, head))
                off = [k for k, v in st.facts.items() if k[0] == '<' and not v and eqs(k[2], head) and k[1][0] == '+' and eqs(k[1][1], start) and type(k[1][2]) is int and k[1][2] > 0]
                j(True if le is False else eqs(head, start) or (False if off else None), 'literals past the restore point are propagated again', lambda: 'propagation head is ' + short(head))
            for lp in ls:
                for st, ev in lp.iters:
                    hw = writes(ev, R.f('_n_propagated_lits'))
                    if hw and lp not in scan:
                        pw = [e for e in ev if e[0] == 'w' and e[1][0] == 'F' and e[1][2].endswith('TSvar::propagated')]
                        j(len(pw) == 1 and pw[0][2] == 0, 'a literal put back in the queue is marked unpropagated', lambda: 'head moves without unmarking')
                        if len(pw) == 1:
                            idx = find(pw[0][1], lambda t: t[0] == 'E' and t[1] == T)
                            j(any(eqs(x[2], hw[-1]) for x in idx) or (False if idx else None), 'a literal put back in the queue is marked unpropagated', lambda: 'unmarks %s, head %s' % ([short(x) for x in idx], short(hw[-1])))
        else:
            for st, v in outs:
                if any(e[0] == 'resize' and e[1] == D for e in st.cl[0]):
                    head = r.fin(st, R.f('_n_propagated_lits'))
                    rt = [e for e in st.cl[0] if e[0] == 'resize' and e[1] == T]
                    ok = rt and (eqs(head, rt[-1][2]) or head == mk('-', rt[-1][2], ('x',)) or (has(head, lambda t: t == rt[-1][2])))
                    stay = eqs(head, mem(R.f('_n_propagated_lits'))) and not writes(st.cl[0], R.f('_n_propagated_lits')) and not fuzzy(head, ())
                    known = any(k[0] in ('<', '==') and has(k, lambda t: eqs(t, head)) and has(k, lambda t: t == T or bool(rt) and t == rt[-1][2]) for k in st.facts)
                    j(True if ok else False if stay and rt and not known else None, 'the propagation head is inside the trail', short(head))
                    # a literal kept that was waiting for propagation stays behind the head
                    if m != 'GB' or len(scan) != 1 or type(head) is int:
                        continue
                    lp, seen, n0 = scan[0], set(), strip(mem(R.f('_n_propagated_lits')))
                    lvs = sorted(x for x in set(find(head, lambda t: t[0] == 'lv')) if lp.own(x))
                    for s2, ev in lp.iters:
                        kept = [e for e in ev if e[0] == 'w' and e[1][0] == 'E' and e[1][1] == T]
                        src = [t[1][2] for e in kept for t in find(e[2], lambda t: t[0] == 'm' and t[1][0] == 'E' and t[1][1] == T and lp.own(t[1][2]))]
                        if len(src) != 1 or src[0][0] != 'lv' or (s2, ev) in ():
                            continue
                        i = strip(src[0])
                        nx = {x: lp.next(s2, x) for x in lvs}
                        key = (repr(strip(tuple(nx.values()))), repr([(k, b) for k, b in s2.facts.items() if k[0] == '<' and has(strip(k), lambda t: t == n0)]))
                        if key in seen:
                            continue
                        seen.add(key)
                        for iv, hv in ((5, 3), (5, 5), (4, 5), (2, 5)):
                            env = {strip(x): 40 + k for k, x in enumerate(lvs)}
                            env.update({i: iv, n0: hv})
                            if any((lambda v: v is not None and bool(v) != b)(evt(strip(k), env)) for k, b in s2.facts.items()):
                                continue
                            vals = [evt(strip(nx[x]), env) for x in lvs]
                            if None in vals:
                                j(None, 'literals waiting for propagation keep waiting', lambda: short(tuple(nx.values())))
                                continue
                            h0, h1 = evt(strip(head), env), evt(strip(head), dict(env, **{}) | {strip(x): v for x, v in zip(lvs, vals)})
                            j(None if None in (h0, h1) else h1 - h0 <= (1 if iv < hv else 0), 'literals waiting for propagation keep waiting', lambda: 'keeping a literal at %d with the head at %d moves the head by %s' % (iv, hv, h1 - h0))
        if m == 'LSCB':
            for lp in ls:
                for st, ev in lp.iters:
                    for a in calls(ev, 'imply_literal'):
                        cl = a[1]
                        src = find(cl, lambda t: t[0] == 'E' and t[1] == R.v('_reimplication_backtrack_buffer'))
                        j(bool(src) or None, 'queued reasons are applied')
                        j(eqs(a[0], lit_at(R, cl, 0)) or (None if fuzzy(a[0], find(a[0], lambda t: t[0] == 'lv')) else False), 'the literal put back is the one its reason implies', lambda: '%s implied by %s' % (short(a[0]), short(cl)))
            j(any(calls(ev, 'imply_literal') for lp in ls for st, ev in lp.iters), 'queued reasons are applied', 'no re-implication loop')
        j.flush('a literal above the target level is unassigned', 'the levels above the target are dropped')


def back_graph(P, E, R, rep, m):
    with rep.guard('graph backtrack ' + m):
        r = Run(P, E, R, rep, 'backtrack', mode=m, pred=lambda f: 'bitset' in f.params[0]['t'])
        j = J(rep, 'undoing a set of chunks [%s]' % m, r.where)
        T, D = R.v('_trail'), R.v('_decision_index')
        B = ('&', ('D', r.p(0), 'bitset'))
        inter = lambda t: type(t) is tuple and t[:2] == ('call', BS + '::has_intersection')
        isB = lambda t: t == B or eqs(t, B) or t == r.p(0)

        def meets(st, s):
            """the facts say set s meets the undone chunks"""
            out = None
            for k, v in st.facts.items():
                for c in find(k, inter):
                    x = [y for y in c[2:4]]
                    if any(eqs(y, s) for y in x) and any(isB(y) for y in x):
                        if k == c:
                            out = v
                        elif k[0] == '==' and (k[1] == 0 or k[2] == 0):
                            out = not v
            return out
        scan = []
        for lp in loops(r):
            if any(calls(ev, 'var_unassign') for st, ev in lp.iters):
                scan.append(lp)
        j(len(scan) == 1 or None, 'one pass over the trail decides what is kept', '%d loops' % len(scan))
        heads = set()
        for st, v in r.outs:
            h = r.fin(st, R.f('_n_propagated_lits'))
            if type(h) is tuple and h[:1] == ('lv',):
                heads.add(h)
        # the renumbering of levels
        counters = {e[2] for lp in loops(r) for st, ev in lp.iters for e in ev if e[0] == 'w' and e[1][0] == 'E' and type(e[2]) is tuple and e[2][:1] == ('lv',) and e[1][1][:1] == ('&',) and e[1][1][1][:1] == ('L',)}
        for lp in loops(r):
            for st, ev in lp.iters:
                tw = [e for e in ev if e[0] == 'w' and e[1][0] == 'E' and e[1][1][:1] == ('&',) and e[1][1][1][:1] == ('L',)]
                if not tw or lp in scan:
                    continue
                own = [t for t in find(tw[0][1][2], lambda t: lp.own(t))]
                hit = None
                for k, x in st.facts.items():
                    for c in find(k, inter):
                        if any(isB(y) for y in c[2:4]):
                            hit = x if k == c else not x
                            j(any(has(y, lambda t: t == R.v('_decision_index')) and has(y, lambda t: own and t == own[0]) for y in c[2:4]) or None, 'a level is dropped exactly when its decision is undone', 'which decision is examined is unclear')
                if len(tw) != 1 or hit is None or not own:
                    j(None, 'a level is dropped exactly when its decision is undone', 'unclear iteration')
                    continue
                val = tw[0][2]
                ctr = [t for t in counters if lp.own(t)]
                if hit:
                    for t in ctr:
                        j(lp.next(st, t) == t, 'kept levels are numbered consecutively', lambda: 'counter becomes %s for a dropped level' % short(lp.next(st, t)))
                    j(val == ERRL, 'a level is dropped exactly when its decision is undone', lambda: short(val))
                else:
                    j(lp.own(val) and lp.next(st, val) == mk('+', val, 1) or (None if fuzzy(val) and not lp.own(val) else False), 'kept levels are numbered consecutively', lambda: 'level %s, counter becomes %s' % (short(val), short(lp.next(st, val)) if lp.own(val) else '?'))
                    if lp.own(val):
                        for b in lp.init(val):
                            j(b == 1 or (None if b is None or fuzzy(b) else False), 'kept levels are numbered consecutively', lambda: 'numbering starts at ' + short(b))
        for lp in scan[:1]:
            for st, ev in lp.iters:
                u = [c[0] for c in calls(ev, 'var_unassign')]
                lits = {strip(t): t for t in find((tuple(u), tuple(st.facts), tuple(e[1:3] for e in ev if e[0] == 'w')), lambda t: t[0] == 'm' and len(t) == 3 and type(t[1]) is tuple and (
                    t[1][0] == 'D' and lp.own(t[1][1]) or t[1][0] == 'E' and lp.own(t[1][2])))}
                lits = {k: v for k, v in lits.items() if has(tuple(st.facts), lambda t: eqs(t, vart(v)))}
                if len(lits) != 1:
                    j(None, 'a literal is undone exactly when its level or its chunks are', 'which literal an iteration examines is unclear')
                    continue
                lit = list(lits.values())[0]
                v = vart(lit)
                ch = meets(st, ('&', R.var(v, 'chunks')))
                cross = meets(st, ('&', R.var(v, 'cross_chunks')))
                lvlerr = None
                for k, x in st.facts.items():
                    if k[0] == '==' and ERRL in k[1:] and has(k, lambda t: t[0] == 'm' and t[1][0] == 'F' and t[1][2].endswith('TSvar::level')):
                        lvlerr = x
                if holdsx(st, mk('==', mem(R.var(v, 'state')), 2)):
                    continue      # literals on the trail are assigned
                nx = lp.next(st, lit[1][2]) if lp.own(lit[1][2]) else None
                j(nx in (mk('+', lit[1][2], 1), ('iter', T, mk('+', lit[1][2], 1))) or (None if nx is None else False), 'every literal is examined', lambda: short(nx))
                lz = holdsx(st, mk('==', mem(R.var(v, 'missed_lower_implication')), UNDEFC))
                lw = [e for e in ev if e[0] == 'w' and eqs(e[1], R.var(v, 'missed_lower_implication'))]
                lm = None
                for k, x in st.facts.items():
                    for c in find(k, inter):
                        if any(isB(y) for y in c[2:4]) and any(has(y, lambda t: t[0] == 'F' and t[2].endswith('missed_implication')) for y in c[2:4]):
                            lm = x if k == c else not x
                if not u and lz is False:
                    j(lm is not None and bool(lw) == lm and all(e[2] == UNDEFC for e in lw), 'a lazily found reason is dropped exactly when it relied on an undone chunk', lambda: 'lazy reason %s when %s' % ('dropped' if lw else 'kept', facts(st, lp.entries[0])[-300:]))
                elif not u and lz is not True:
                    j(None, 'a lazily found reason is dropped exactly when it relied on an undone chunk', 'not examined')
                if u:
                    j(eqs(u[0], v) or None, 'the variable undone is the one examined', short(u[0]))
                    sy = writes(ev, R.f('_sync_validity_index'))
                    j(bool(sy) or False, 'the synchronised prefix is cut where a literal is undone', 'not updated')
                    tw = [e for e in ev if e[0] == 'w' and e[1][0] == 'E' and e[1][1] in (T, D)]
                    j(not tw, 'an undone literal leaves the trail', lambda: str([short(e[1]) for e in tw]))
                    j(True if ch or lvlerr else (None if ch is None and lvlerr is None else False), 'a literal is undone exactly when its level or its chunks are', lambda: 'undone when ' + facts(st, lp.entries[0])[:300])
                else:
                    # allowed only in front of the first undone decision
                    own = lambda t: lp.own(t) or type(t) is tuple and t[0] == 'iter' and lp.own(t[2])
                    front = any(k[0] == '<' and x and own(k[1]) and own(k[2]) for k, x in st.facts.items())
                    j(front or ch is False and lvlerr is False, 'a literal is undone exactly when its level or its chunks are', lambda: 'kept when ' + facts(st, lp.entries[0])[:300])
                    # replay
                    pw = [e for e in ev if e[0] == 'w' and eqs(e[1], R.var(v, 'propagated'))]
                    prop = holdsx(st, mk('==', mem(R.var(v, 'propagated')), 0))
                    if cross is not False and prop is not True and not (ch or lvlerr):
                        j(any(e[2] == 0 for e in pw), 'a kept literal whose propagation relied on an undone chunk is replayed', lambda: 'left propagated when ' + facts(st, lp.entries[0])[:300])
                        h = [l for l in heads if lp.own(l)]
                        nx = lp.next(st, h[0]) if h else None
                        if cross and any(e[2] == 0 for e in pw):
                            lowered = nx is not None and (nx != h[0] and has(nx, lambda t: t == lit[1][2] or t == lit[1][1]) and not has(nx, lambda t: t[:1] == ('max',)) or any(holdsx(st, mk('<', h[0], x)) for x in [lit[1][2]]))
                            j(lowered or (None if nx is None or nx != h[0] and nx[:1] != ('max',) else False), 'the propagation head moves back to a literal to replay', lambda: 'head becomes ' + short(nx))
                    elif pw and prop is not True and any(e[2] == 0 for e in pw) is False:
                        j(False, 'a kept literal whose propagation relied on an undone chunk is replayed', lambda: short(pw[0][2]))
                    if front:
                        continue
                    tw = [e for e in ev if e[0] == 'w' and e[1][0] == 'E' and e[1][1] == T]
                    j(len(tw) == 1 and eqs(tw[0][2], lit), 'a kept literal stays on the trail', lambda: str([short(e[2]) for e in tw]))
                    if len(tw) == 1 and lp.own(tw[0][1][2]):
                        nx = lp.next(st, tw[0][1][2])
                        j(nx in (mk('+', tw[0][1][2], 1), ('iter', T, mk('+', tw[0][1][2], 1))) or (None if nx is None else False), 'kept literals stay in order', lambda: short(nx))
                    dec = holdsx(st, mk('==', mem(R.var(v, 'reason')), UNDEFC))
                    dw = [e for e in ev if e[0] == 'w' and e[1][0] == 'E' and e[1][1] == D]
                    if dec:
                        ok = len(dw) == 1 and bool(tw) and eqs(dw[0][2], tw[0][1][2])
                        j(ok or (None if len(dw) == 1 and not tw else False), 'a kept decision still opens its level at its position', lambda: str([(short(e[1]), short(e[2])) for e in dw]))
                        if dw and lp.own(dw[0][1][2]):
                            nx = lp.next(st, dw[0][1][2])
                            j(nx == mk('+', dw[0][1][2], 1) or (None if nx is None else False), 'a kept decision still opens its level at its position', lambda: 'next level slot: ' + short(nx))
                    elif dec is False:
                        j(not dw, 'only kept decisions open levels', lambda: str([short(e[2]) for e in dw]))
                    else:
                        j(None if not dw else False, 'only kept decisions open levels', 'decision or implication not examined')
                    vw = [e for e in ev if e[0] == 'w' and eqs(e[1], R.var(v, 'level'))]
                    if vw:
                        j(bool(vw) and has(vw[-1][2], lambda t: eqs(t, mem(R.var(v, 'level')))) and vw[-1][2] != mem(R.var(v, 'level')) or (None if fuzzy(vw[-1][2]) else False), 'a kept literal above a dropped level is renumbered', lambda: short(vw[-1][2]))
                    else:
                        le = [k for k, x in st.facts.items() if k[0] == '<' and not x and eqs(k[2], mem(R.var(v, 'level'))) and k[1][0] == 'lv']
                        gt = [k for k, x in st.facts.items() if k[0] == '<' and x and eqs(k[2], mem(R.var(v, 'level')))]
                        le += [k for k, x in st.facts.items() if k[0] == '<' and x and eqs(k[1], mem(R.var(v, 'level')))]
                        off = [k for k, x in st.facts.items() if k[0] == '<' and not x and eqs(k[2], mem(R.var(v, 'level'))) and k[1][0] == '+' and k[1][1][:1] == ('lv',) and type(k[1][2]) is int and k[1][2] > 0]
                        j(bool(le) or (False if gt or off or not any(has(k, lambda t: eqs(t, mem(R.var(v, 'level')))) for k in st.facts if k[0] == '<') else None), 'a kept literal above a dropped level is renumbered', lambda: 'level kept when ' + facts(st, lp.entries[0])[:300])
        for st, v in r.outs:
            ev = st.cl[0]
            rs = [e for e in ev if e[0] == 'resize' and e[1] == D]
            rt = [e for e in ev if e[0] == 'resize' and e[1] == T]
            j(len(rs) == 1, 'the undone levels are dropped', 'levels not resized')
            j(len(rt) == 1, 'the trail keeps exactly the literals kept', 'trail not resized')
        j.flush('a literal is undone exactly when its level or its chunks are', 'a kept literal whose propagation relied on an undone chunk is replayed')


def lazy_level(P, E, R, rep):
    with rep.guard('lazy level'):
        r = Run(P, E, R, rep, 'lit_lazy_level', follow=('lit_lazy_level',))
        j = J(rep, 'level of a lazily found implication', r.where)
        lit = r.p(0)
        lz = mem(R.var(vart(lit), 'missed_lower_implication'))
        for st, v in r.outs:
            und = holds(st, mk('==', lz, UNDEFC))
            if und:
                j(eqs(v, mem(R.var(vart(lit), 'level'))) or (None if fuzzy(v) else False), 'without one it is the level itself', lambda: short(v))
            elif und is False:
                one = holds(st, mk('==', csize(R, lz), 1))
                if one:
                    j(eqt(st, v, 0), 'a unit reason means the root level', lambda: short(v))
                elif one is False:
                    j(eqs(v, mem(R.var(vart(lit_at(R, lz, 1)), 'level'))) or (None if fuzzy(v) else False), 'it is the level of the second literal of the reason', lambda: short(v))
                else:
                    j(None, 'a unit reason means the root level')
            else:
                j(None, 'without one it is the level itself')
        j.flush('without one it is the level itself')


def restart(P, E, R, rep):
    for m in MODES:
        with rep.guard('restart'):
            r = Run(P, E, R, rep, 'restart', mode=m)
            j = J(rep, 'restarting [%s]' % m, r.where)
            for st, v in r.outs:
                bt = [c for c in calls(st.cl[0], 'backtrack')]
                j(eqt(st, bt[0][0], 0) if bt else None, 'everything above the root level is undone', lambda: str([short(x[0]) for x in bt]))
            j.flush()
