"""S05: clauses are deleted or shortened only when that loses nothing, and no list refers to a deleted clause afterwards."""
from rules.solver import *
from rules.clauses import eq0, short_facts, NMS, UND_, TRUE_, FALSE_


class GC(SC):
    keepfacts = True
    keeplocals = True

    def call2(self, eng, st, c):
        q = c.qn.split('<')[0]
        if q == REC + '::delete_clause' and q in self.anch and len(c.args) == 1:
            cl = eng.unloc(st, c.args[0])
            self.emit(st, 'call', 'delete_clause', (cl,))
            site = S(c.ctx, c.node)
            eng.kill(st, site)
            eng.havoc(st, eng.E.mod[c.fid], 'h' + site)
            for f, v in (('deleted', 1), ('watched', 0)):
                eng.write(st, field(self.R, cl, f), v, site + f, notify=False)
            return [(st, 0)]
        return SC.call2(self, eng, st, c)


def check(P, E, rep):
    R = Sol(P)
    deletion(P, E, R, rep)
    for mode in ('CB', 'LSCB'):
        redundant(P, E, R, rep, mode)
        rootlists(P, E, R, rep, mode)
    for mode in ('NCB', 'CB', 'LSCB', 'GB'):
        shorten(P, E, R, rep, mode)
    repair(P, E, R, rep)
    users(P, E, R, rep)


# ------------------------------------------------------------ what a path knows about a clause
def xn(t):
    """stamp-free form with exclusive-ors cancelled"""
    t = strip(t)
    if type(t) is tuple and t and t[0] == '^' and len(t) == 3:
        return mk('^', xn(t[1]), xn(t[2]))
    return t


def lits_of(R, cl):
    return lit_at(R, cl, 0)[1][1]


def inclause(R, st, t, cl):
    """t is certainly one of the literals of the clause"""
    L = strip(lits_of(R, cl))
    t = xn(t)
    if type(t) is not tuple:
        return False
    if t[0] == 'm' and t[1][0] == 'E' and t[1][1] == L:
        return True
    if t[0] == 'm' and t[1][0] == 'D' and type(t[1][1]) is tuple and t[1][1][0] == 'iter' and t[1][1][1] == L:
        return True
    if t[0] == 'm' and t[1][0] == 'F' and t[1][2].endswith('TSwatch::block'):
        return True         # blocking literals belong to their clause (S04)
    return False


def other_watch(R, t, cl, lit):
    """the watched literal that is not `lit`"""
    l0, l1 = lit_at(R, cl, 0), lit_at(R, cl, 1)
    return xn(t) == xn(mk('^', mk('^', l0, l1), lit))


def lits_known(st):
    """{literal: (values, level is root)} as far as the path decides"""
    val, stamp, rt = {}, {}, {}
    for k, v in st.facts.items():
        t = eq0(k)
        if type(t) is tuple and t[0] == 'call' and t[1].startswith('napsat::Tlit::') and t[1].split('::')[-1] in NMS:
            x = xn(t[2])
            w = NMS[t[1].split('::')[-1]]
            s = val.get(x, {UND_, TRUE_, FALSE_})
            val[x] = s - {w} if v else s & {w}
        l = None
        if t is not None:
            l, r = litoflevel(t), v
        elif k[0] == '<' and k[1] == 0:
            l, r = litoflevel(k[2]), not v
        elif k[0] == '<' and k[2] == 1:
            l, r = litoflevel(k[1]), v
        if l is not None:
            rt[xn(l)] = r
    for x, r in rt.items():
        if r:               # unassigned variables have no level (S01)
            val[x] = val.get(x, {UND_, TRUE_, FALSE_}) - {UND_}
    return val, rt


def litoflevel(t):
    if type(t) is tuple and t[0] == 'm' and t[1][0] == 'F' and t[1][2].endswith('TSvar::level'):
        x = t[1][1]
        if type(x) is tuple and x[0] == '&' and x[1][0] == 'E':
            v = x[1][2]
            if type(v) is tuple and v[:2] == ('call', 'napsat::Tlit::var'):
                return v[2]
    return None


def contradictory(st):
    val, rt = lits_known(st)
    return any(not s for s in val.values())


def roottrue(R, st, cl, lit=None):
    val, rt = lits_known(st)
    return any(s == {TRUE_} and rt.get(x) and (inclause(R, st, x, cl) or lit is not None and other_watch(R, x, cl, lit)) for x, s in val.items())


def fld(st, R, cl, f):
    """truth of a flag of the clause on this path"""
    want = strip(field(R, cl, f))
    r = None
    for k, v in st.facts.items():
        t = eq0(k)
        if type(t) is tuple and strip(t) == ('m', want, 0):
            r = not v
        elif k[0] == '==' and any(strip(x) == ('m', want, 0) for x in k[1:]) and 1 in k[1:]:
            r = v
    return r


def sizefact(st, R, cl, pred, s=None, lo=1):
    """pred(size) holds for every size >= lo the path allows (None: cannot tell / False: for none)"""
    s = strip(csize(R, cl)) if s is None else strip(s)
    ok = []
    for n in range(lo, 9):
        good = True
        for k, v in st.facts.items():
            if k[0] in ('<', '==') and len(k) == 3:
                a, b = (n if strip(x) == s else x if type(x) is int else None for x in k[1:])
                if a is None or b is None or not any(strip(x) == s for x in k[1:]):
                    continue
                if ((a < b) if k[0] == '<' else (a == b)) != v:
                    good = False
        if good:
            ok.append(pred(n))
    return True if ok and all(ok) else False if ok and not any(ok) else None


def unreasoned(R, st, cl, mode):
    """the path knows that the clause is not the reason of its first literal"""
    need = {'reason'} | ({'missed_lower_implication'} if mode == 'LSCB' else set())
    got = set()
    l0 = strip(lit_at(R, cl, 0))
    for k, v in st.facts.items():
        if k[0] != '==' or v or not any(eqs(x, cl) for x in k[1:]):
            continue
        for x in k[1:]:
            if type(x) is tuple and x[0] == 'm' and x[1][0] == 'F' and '::TSvar::' in x[1][2]:
                ls = find(strip(x), lambda y: y[:2] == ('call', 'napsat::Tlit::var'))
                if ls and ls[0][2] == l0:
                    got.add(x[1][2].split('::')[-1])
    return need <= got


def opaque(st):
    return any(has(k, lambda t: t[0] in ('app', 'u', 'r')) for k in st.facts)


def justify(j, R, st, cl, mode, why, tracker=False, lit=None):
    """a deletion must be allowed"""
    op = None if opaque(st) else False
    if why != 'redundant':
        j(roottrue(R, st, cl, lit) or op, 'a clause is deleted as satisfied only if true at root', lambda: short_facts(st))
    j(unreasoned(R, st, cl, mode) or op, 'the reason of an assigned literal is not deleted', lambda: short_facts(st))
    j(fld(st, R, cl, 'deleted') is False or op, 'only clauses in use are deleted', lambda: short_facts(st))


# ------------------------------------------------------------ delete_clause
def deletion(P, E, R, rep):
    with rep.guard('deleting a clause'):
        for proof in (False, True):
            r = Run(P, E, R, rep, 'delete_clause', cls=GC, proof=proof, tracker=proof, observer=False, stats=False)
            j = J(rep, 'deleting a clause', r.where)
            cl = r.p(0)
            for st, ret in r.outs:
                ev = st.cl[0]
                j(same(st, r.fin(st, field(R, cl, 'deleted')), 1), 'the clause is marked deleted', lambda: short(r.fin(st, field(R, cl, 'deleted'))))
                w = r.fin(st, field(R, cl, 'watched'))
                j(same(st, w, 0) or False, 'the clause is no longer watched', lambda: short(w))
                ps = [v for v, _ in pushes(ev, R.v('_deleted_clauses'))]
                j(len(ps) == 1 and eqs(ps[0], cl), 'its identifier is given back once', lambda: '%s' % [short(x) for x in ps])
                odd = [e for e in ev if e[0] == 'w' and not (eqs(e[1], field(R, cl, 'deleted')) or eqs(e[1], field(R, cl, 'watched')) or e[1][0] == 'F' and e[1][1] == THIS or e[1][0] == 'E' and e[1][1] == R.v('_deleted_clauses')) and not fuzzy(e[1])]
                j(not odd, 'nothing else changes', lambda: '%s' % [short(e[1]) for e in odd])
            j.flush()


# ------------------------------------------------------------ simplify_clause_set
def redundant(P, E, R, rep, mode):
    with rep.guard('deleting redundant clauses [%s]' % mode):
        for tracker in (False, True):
            r = Run(P, E, R, rep, 'simplify_clause_set', cls=GC, mode=mode, proof=False, tracker=tracker, observer=False, stats=False)
            j = J(rep, 'deleting redundant clauses [%s%s]' % (mode, ', dependencies recorded' if tracker else ''), r.where)
            for l in loops(r):
                for st, ev in l.iters:
                    for a in calls(ev, 'delete_clause'):
                        one(j, R, st, a[0], mode, tracker)
            for st, ret in r.outs:
                ev = st.cl[0]
                for a in calls(ev, 'delete_clause'):
                    one(j, R, st, a[0], mode, tracker)
                marks = [i for i, e in enumerate(ev) if e[0] == 'L' or e[0] == 'call' and e[1] == 'delete_clause']
                fix = [i for i, e in enumerate(ev) if e[0] == 'call' and e[1] == 'repair_watch_lists']
                j(bool(fix) and (not marks or fix[-1] > marks[-1]) or (None if fuzzyloop(r) else False), 'the watch lists are repaired after deletions', lambda: '%s' % [e[1] for e in ev if e[0] == 'call'])
            j.flush('a given clause is never deleted as redundant', 'the watch lists are repaired after deletions')


def one(j, R, st, cl, mode, tracker):
    op = None if opaque(st) else False
    if contradictory(st):
        return
    justify(j, R, st, cl, mode, 'redundant')
    j(fld(st, R, cl, 'learned') is True or op, 'a given clause is never deleted as redundant', lambda: short_facts(st))
    if tracker:
        j(fld(st, R, cl, 'external') is False or op, 'a given clause is kept while dependencies are recorded', lambda: short_facts(st))
    j(fld(st, R, cl, 'watched') is True or sizefact(st, R, cl, lambda n: n >= 2) or op, 'a unit clause is not deleted', lambda: short_facts(st))


def fuzzyloop(r):
    return not any(calls(ev, 'delete_clause') for l in loops(r) for _, ev in l.iters)


# ------------------------------------------------------------ purge_root_watch_lists
def rootlists(P, E, R, rep, mode):
    with rep.guard('lists of literals false at root [%s]' % mode):
        r = Run(P, E, R, rep, 'purge_root_watch_lists', cls=GC, mode=mode, proof=False, tracker=False, observer=False, stats=False)
        j = J(rep, 'lists of literals false at root [%s]' % mode, r.where)
        WT = strip(R.v('_watches'))
        lps = loops(r)

        def lists_in(t):
            return find(strip(t), lambda x: x[0] == '&' and len(x) == 2 and type(x[1]) is tuple and x[1][0] == 'E' and x[1][1] == WT)
        main = None
        for l in lps:
            for st, ev in l.iters:
                for e in ev:
                    if e[0] == 'w' and e[1][0] == 'E' and lists_in(e[1][1]) and any(l.own(x) for x in lvs(e[1][2])):
                        main = l
                        W = lists_in(e[1][1])[0]
        if main is None:
            cut = any(e[0] in ('resize', 'clear') and lists_in(e[1]) for l in lps for _, ev in l.iters for e in ev)
            other = any(e[0] in ('vmut', 'lib', 'pop') or e[0] == 'call' and e[1] not in ('delete_clause', 'watch_lit') for l in lps for _, ev in l.iters for e in ev)
            j(False if cut and not other else None, 'entries are dropped only with a reason', 'lists are cut although no entry is kept' if cut else 'no loop over the entries of a list')
            j.flush()
            return
        lit = W[1][2]
        # write position, read position
        wpos = set()
        for st, ev in main.iters:
            for e in ev:
                if e[0] == 'w' and e[1][0] == 'E' and strip(e[1][1]) == W:
                    wpos |= {x for x in lvs(e[1][2]) if main.own(x)}
        ix = lambda t: t[2] if type(t) is tuple and t[0] == 'iter' and strip(t[1]) == W else t
        k = next(iter(wpos)) if len(wpos) == 1 else None
        if k is None:
            j(None, 'entries are dropped only with a reason', 'position of the entries kept not recognised')
            j.flush()
            return
        j({ix(x) for x in main.init(k)} == {0} or None, 'the entries kept come first', lambda: '%s' % [short(x) for x in main.init(k)])
        for st, ev in main.iters:
            if contradictory(st):
                continue
            ents = []
            for f in list(st.facts) + list(ev):
                for x in find(strip(f), lambda x: x[0] == 'E' and x[1] == W and x[2] != k and any(main.own(y) for y in lvs(x[2]))):
                    ents.append(x[2])
            # an entry is looked at if the path reads its clause
            reads = sorted({x for x in ents}, key=repr)
            pos = [x for x in reads if any(has(strip(f), lambda y: y[0] == 'F' and str(y[2]).endswith('TSwatch::cl') and has(y[1], lambda z: z[0] == 'E' and z[1] == W and z[2] == x)) for f in st.facts)]
            if len(pos) != 1:
                j(None, 'entries are dropped only with a reason', lambda: 'entry examined not recognised: %s' % [short(x) for x in reads])
                continue
            ent = ('&', ('E', W, pos[0], ''))
            cl = ('m', ('F', ent, REC + '::TSwatch::cl'), 0)
            keep = [e for e in ev if e[0] == 'w' and e[1][0] == 'E' and strip(e[1][1]) == W and ix(e[1][2]) == k]
            moved = ix(main.next(st, k))
            if keep:
                j(strip(keep[-1][2]) == ('m', ('E', W, pos[0], ''), 0) or (None if fuzzy(keep[-1][2], (k, *lvs(pos[0]))) else False), 'an entry is kept as it is', lambda: short(keep[-1][2]))
                j(moved == mk('+', k, 1), 'an entry is kept as it is', lambda: 'position kept goes to %s' % short(moved))
                j(not calls(ev, 'delete_clause'), 'a deleted clause leaves the list', 'kept although deleted')
                j(fld(st, R, cl, 'deleted') is False or (None if opaque(st) else False), 'a deleted clause leaves the list', lambda: short_facts(st))
                continue
            j(moved == k, 'an entry is kept as it is', lambda: 'position kept goes to %s without an entry' % short(moved))
            dels = calls(ev, 'delete_clause')
            if fld(st, R, cl, 'deleted') is True:
                j(not dels and not calls(ev, 'watch_lit'), 'only clauses in use are deleted', lambda: 'deleted again')
                continue
            for a in dels:
                j(eqs(a[0], cl) or (None if fuzzy(a[0], lvs(pos[0])) else False), 'the clause deleted is the one examined', lambda: short(a[0]))
                justify(j, R, st, cl, mode, 'root', lit=lit)
            if dels:
                j(not calls(ev, 'watch_lit'), 'a deleted clause is not watched again', 'watched after deletion')
                continue
            j(unreasoned(R, st, cl, mode) or (None if opaque(st) else False), 'the reason of an assigned literal keeps its watches', lambda: short_facts(st))
            wl = calls(ev, 'watch_lit')
            C1, C0 = content(R, ev, cl, 1), content(R, ev, cl, 0)
            j(content_is(C0, lambda t: other_watch(R, t, cl, lit)) or content_is(C1, lambda t: other_watch(R, t, cl, lit)) or None, 'the other watched literal stays', lambda: '%s, %s' % (short(C0), short(C1)))
            if wl:
                a = wl[-1]
                x = xn(a[0])
                j(len(wl) == 1 and eqs(a[1], cl), 'a clause watches one other literal instead', lambda: '%s' % [[short(y) for y in z] for z in wl])
                val, rt = lits_known(st)
                j(inclause(R, st, x, cl) or (None if fuzzy(x, lvs(x)) else False), 'the new watched literal belongs to the clause', lambda: short(x))
                j(TRUE_ in val.get(x, {1}) and val.get(x) == {TRUE_} or rt.get(x) is False or (None if opaque(st) else False), 'the new watched literal is not false at root', lambda: short_facts(st))
                j(xn(C1) == x or xn(C0) == x or (None if fuzzy(C1, lvs(C1)) else False), 'the new watched literal is among the first two', lambda: '%s, %s' % (short(C0), short(C1)))
                back = [e for e in ev if e[0] == 'w' and e[1][0] == 'E' and strip(e[1][1]) == strip(lits_of(R, cl)) and e[1][2] not in (0, 1)]
                j(len(back) >= 1 and xn(back[-1][2]) in (xn(lit), xn(('call', '~lit', lit))) and eqs(('m', back[-1][1], 0), x) and xn(back[-1][2]) == xn(lit) or (None if any(e[0] == 'lib' for e in ev) else False),
                  'no literal of the clause is lost', lambda: '%s' % [(short(e[1]), short(xn(e[2]))) for e in back])
            else:
                # every further literal was looked at
                inner = [l for l in lps if any(e[0] == 'L' and e[1:] == l.key for e in ev)]
                ok = None
                for l in inner:
                    for lv in lvars(l):
                        if any(f[0] in ('<', '==') and has(f, lambda t: t == lv) for f in st.facts):
                            ok = visits(l, st, lv, csize(R, cl), 2) if ok is None else ok
                if not inner and not opaque(st):
                    ok = False
                j(ok, 'another literal is looked for among all others', lambda: short_facts(st))
        if not any(calls(ev, 'watch_lit') for l in lps for _, ev in l.iters):
            other = any(e[0] in ('push', 'vmut') or e[0] == 'call' and e[1] not in ('delete_clause', 'watch_lit') for l in lps for _, ev in l.iters for e in ev)
            j(None if other else False, 'a clause watches one other literal instead', 'no literal is ever watched instead')
        # the search passes over a literal only if it is false at root
        for l in lps:
            if l is main:
                continue
            for st, ev in l.iters:
                if contradictory(st):
                    continue
                for lv in lvars(l):
                    val, rt = lits_known(st)
                    for x in set(val) | set(rt):
                        if x[0] == 'm' and x[1][0] == 'E' and x[1][2] == lv and has(x, lambda t: t[0] == 'F' and str(t[2]).endswith('TSclause::lits')):
                            j(rt.get(x) is True and TRUE_ not in val.get(x, {TRUE_}) or (None if opaque(st) else False), 'a literal not false at root is taken as the new watched one', lambda: short_facts(st))
                            j(stepof(l, st, lv) in (1, -1) or (None if stepof(l, st, lv) is None else False), 'another literal is looked for among all others', lambda: short(l.next(st, lv)))
        # the outer loop: negations of root literals only, the list cut behind the entries kept
        for l in lps:
            for st, ev in l.iters:
                at = [i for i, e in enumerate(ev) if e[0] == 'L' and e[1:] == main.key]
                if not at:
                    continue
                j(rootlit(R, st, lit) or (None if opaque(st) else False), 'only lists of literals false at root are emptied', lambda: '%s: %s' % (short(lit), short_facts(st)))
                rz = [e for e in ev[at[0]:] if e[0] == 'resize' and strip(e[1]) == W]
                j(len(rz) == 1 and ix(rz[0][2]) == kend(main, k, rz[0][2]) or (None if any(e[0] in ('vmut', 'pop') for e in ev[at[0]:]) else False), 'the entries not kept leave the list', lambda: '%s' % [short(e[2]) for e in rz])
        # every propagated literal has its turn
        ti = {x[2] for x in find(strip(lit), lambda x: x[0] == 'E' and x[1] == R.v('_trail'))}
        for l in lps:
            if len(ti) == 1 and any(e[0] == 'L' and e[1:] == main.key for _, ev in l.iters for e in ev):
                tv = next((x for x in lvars(l) if strip(x) == strip(next(iter(ti)))), None)
                for st, ret in r.outs if tv is not None else ():
                    if any(e[0] == 'L' and e[1:] == l.key for e in st.cl[0]):
                        j({visits(l, st, tv, b) for b in (mem(R.f('_n_propagated_lits')), ('call', 'std::size', R.v('_trail')))} - {None} == {True} or (False if visits(l, st, tv, mem(R.f('_n_propagated_lits'))) is False and visits(l, st, tv, ('call', 'std::size', R.v('_trail'))) in (None, False) else None), 'every propagated literal is looked at', lambda: short_facts(st))
        j.flush('a clause is deleted as satisfied only if true at root', 'the new watched literal is not false at root', 'only lists of literals false at root are emptied')


def kend(main, k, t):
    return t[2] if type(t) is tuple and t[0] == 'iter' and t[2] == k else k


def rootlit(R, st, lit):
    """lit is the negation of a literal whose level is root, or known to be false at root"""
    val, rt = lits_known(st)
    if type(lit) is tuple and lit[:2] == ('call', '~lit'):
        return rt.get(xn(lit[2])) is True
    return rt.get(xn(lit)) is True and (val.get(xn(lit)) == {FALSE_} or not (type(lit) is tuple and has(lit, lambda t: t == R.v('_trail'))))


def lvs(t):
    return tuple(set(find(t, lambda x: x[0] == 'lv' and len(x) == 3)))


def content(R, ev, cl, n):
    L = strip(lits_of(R, cl))
    out = lit_at(R, cl, n)
    for e in ev:
        if e[0] == 'w' and e[1][0] == 'E' and strip(e[1][1]) == L and e[1][2] == n:
            out = e[2]
    return out


def content_is(t, pred):
    return pred(t)


# ------------------------------------------------------------ purge_clauses
def shorten(P, E, R, rep, mode):
    with rep.guard('shortening clauses [%s]' % mode):
        r = Run(P, E, R, rep, 'purge_clauses', cls=GC, mode=mode, proof=False, tracker=False, observer=False, stats=False)
        j = J(rep, 'shortening clauses [%s]' % mode, r.where)
        lps = loops(r)
        outer = cl = None
        for l in lps:
            for st, ev in l.iters:
                for f in list(st.facts) + list(ev):
                    for x in find(f, lambda x: x[0] == 'E' and x[1] == R.v('_clauses') and l.own(x[2])):
                        outer, cl = l, x[2]
        if outer is None:
            j(None, 'every clause is looked at', 'no loop over the clauses')
            j.flush()
            return
        j(outer.init(cl) == {0} or None, 'every clause is looked at', lambda: '%s' % outer.init(cl))
        L = strip(lits_of(R, cl))
        ix = lambda t: t[2] if type(t) is tuple and t[0] == 'iter' and strip(t[1]) == L else t
        S0 = csize(R, cl)
        inner = [l for l in lps if l is not outer and any(e[0] == 'w' and e[1][0] == 'E' and strip(e[1][1]) == L for _, ev in l.iters for e in ev)]
        if len(inner) != 1 and mode != 'GB':
            shrunk = any(e[0] == 'w' and eqs(e[1], S0[1]) and not has(e[2], lambda t: t[0] in ('r', 'app', 'u')) for l in lps for _, ev in l.iters for e in ev)
            moved = any(e[0] in ('lib', 'vmut') or e[0] == 'w' and e[1][0] in ('E', 'D') and has(e[1], lambda t: strip(t) == L) for l in lps for _, ev in l.iters for e in ev)
            j(False if shrunk and not moved else None, 'only literals false at root leave a clause', 'no loop that moves literals of the clause')
        ends = {}
        for l in lps:
            if l is not outer:
                for lv in lvars(l):
                    if any(diff(ix(x), S0) is not None for x in l.init(lv)):
                        ends[lv] = l
        for l in inner[:1]:
            for st, ev in l.iters:
                if contradictory(st):
                    continue
                ws = [e for e in ev if e[0] == 'w' and e[1][0] == 'E' and strip(e[1][1]) == L]
                moved = [lv for lv in lvars(l) if ix(l.next(st, lv)) == mk('-', lv, 1)]
                val, rt = lits_known(st)
                if not moved:
                    j(not ws or None, 'no literal of the clause is lost', lambda: '%s' % [(short(e[1]), short(e[2])) for e in ws])
                    continue
                e_ = moved[0]
                ends[e_] = l
                looked = [x for x in set(val) | set(rt) if x[0] == 'm' and x[1][0] == 'E' and x[1][1] == L and l.own(x[1][2])]
                dropped = [x for x in looked if val.get(x) == {FALSE_} and rt.get(x)]
                j(bool(dropped) or (None if opaque(st) else False), 'only literals false at root leave a clause', lambda: short_facts(st))
                if dropped:
                    i = dropped[0][1][2]
                    w = {e[1][2]: strip(e[2]) for e in ws}
                    last_ = ('m', ('E', L, e_, ''), 0)
                    ok = w.get(i) == last_ and w.get(e_) == dropped[0]
                    sw = any(e[0] == 'lib' and e[1] in ('swap', 'iter_swap') for e in ev)
                    j(ok or (None if sw or any(type(x) is tuple and x[0] != 'lv' for x in w) else False), 'no literal of the clause is lost', lambda: '%s' % [(short(e[1]), short(e[2])) for e in ws])
        for st, ev in outer.iters:
            if contradictory(st):
                continue
            j(eqs(outer.next(st, cl), mk('+', cl, 1)) or (None if fuzzy(outer.next(st, cl), (cl,)) else False), 'every clause is looked at', lambda: short(outer.next(st, cl)))
            dels = calls(ev, 'delete_clause')
            for a in dels:
                j(eqs(a[0], cl) or (None if fuzzy(a[0], (cl,)) else False), 'the clause deleted is the one examined', lambda: short(a[0]))
                justify(j, R, st, cl, mode, 'root')
            if dels:
                j(len(dels) == 1 or False, 'a clause is deleted once', '%d times' % len(dels))
                j(not calls(ev, 'imply_literal') and not calls(ev, 'reimply_literal') and not pushed(R, ev), 'a deleted clause has no effect', '')
                continue
            if fld(st, R, cl, 'deleted') is not False:
                sz = [e for e in ev if e[0] == 'w' and eqs(e[1], field(R, cl, 'size'))]
                j(not sz and not pushed(R, ev) and not calls(ev, 'imply_literal') or (None if opaque(st) or has_write(ev, field(R, cl, 'deleted')) else None), 'deleted clauses are left alone', lambda: short_facts(st))
                continue
            final(j, R, st, ev, cl, inner, ends, ix, S0, mode)
        for st, ret in r.outs:
            ev = st.cl[0]
            at = [i for i, e in enumerate(ev) if e[0] == 'L' and e[1:] == outer.key]
            fix = [i for i, e in enumerate(ev) if e[0] == 'call' and e[1] == 'repair_watch_lists']
            j(bool(fix) and (not at or fix[-1] > at[-1]) or False, 'the watch lists are repaired after deletions', lambda: '%s' % [e[1] for e in ev if e[0] == 'call'])
            j(covers(st, cl, ('call', 'std::size', R.v('_clauses'))), 'every clause is looked at', lambda: short_facts(st))
            if mode in ('CB', 'LSCB'):
                pr = [i for i, e in enumerate(ev) if e[0] == 'call' and e[1] == 'purge_root_watch_lists']
                j(bool(pr) and bool(at) and pr[0] < at[0] or False, 'watched literals false at root are replaced before', lambda: '%s' % [e[1] for e in ev if e[0] == 'call'])
        j.flush('a clause is deleted as satisfied only if true at root', 'a shortened clause of two literals becomes binary', 'a shortened clause of one literal implies it', 'the watch lists are repaired after deletions')


def has_write(ev, loc):
    return any(e[0] == 'w' and eqs(e[1], loc) for e in ev)


def pushed(R, ev):
    return [e for e in ev if e[0] == 'push' and has(e[1], lambda t: t == R.f('_binary_watches'))]


def final(j, R, st, ev, cl, inner, ends, ix, S0, mode):
    """a clause that stays: its new size and what follows from it"""
    L = strip(lits_of(R, cl))
    sz = [e[2] for e in ev if e[0] == 'w' and eqs(e[1], field(R, cl, 'size'))]
    early = not any(e[0] == 'L' for e in ev) and not sz
    bp, imp, rei = pushed(R, ev), calls(ev, 'imply_literal'), calls(ev, 'reimply_literal')
    wat = [e[2] for e in ev if e[0] == 'w' and eqs(e[1], field(R, cl, 'watched'))]
    if early:
        j(not bp and not imp and not rei and not wat, 'a clause left alone keeps its watches', lambda: short_facts(st))
        return
    size = sz[-1] if sz else S0
    val, rt = lits_known(st)
    # the sizes taken one after the other
    cur = S0
    for n, s in enumerate(sz):
        ends_here = [lv for lv in lvs(s) if lv in ends]
        if ends_here and not n:
            e_ = ends_here[0]
            inits = {ix(x) for x in ends[e_].init(e_)}
            ok = all(strip(subst_lv(s, e_, x)) == strip(S0) for x in inits)
            near = all(diff(subst_lv(s, e_, x), S0) is not None for x in inits)
            j(ok or (False if near else None), 'the size counts the literals kept', lambda: '%s where the end starts at %s' % (short(s), [short(x) for x in inits]))
        elif eqs(s, cur) or eqs(s, S0):
            pass
        elif eqs(s, mk('-', cur, 1)) or diff(s, cur) is not None and diff(s, cur) == -1 or s == 1:
            l1 = xn(lit_at(R, cl, 1))
            ok = rt.get(l1) is True and val.get(l1) in ({FALSE_}, {FALSE_, UND_}, None) and TRUE_ not in val.get(l1, {TRUE_})
            j(ok or (None if opaque(st) else False), 'only literals false at root leave a clause', lambda: short_facts(st))
        else:
            j(None if fuzzy(s, (cl,)) else False, 'the size counts the literals kept', lambda: 'size set to ' + short(s))
        cur = s
    if not sz:
        j(not bp and not imp and not rei and not wat, 'a clause left alone keeps its watches', lambda: short_facts(st))
        return
    two, one_ = sizeis(st, size, 2), sizeis(st, size, 1)
    j(two is not None or one_ is True or (None if opaque(st) else False), 'a shortened clause of two literals becomes binary', lambda: 'size %s not examined: %s' % (short(size), short_facts(st)))
    dec = any(diff(s, b) == -1 or s == 1 for b, s in zip([S0] + sz, sz))
    if dec:
        j(one_ is not None or two is True or (None if opaque(st) else False), 'a shortened clause of one literal implies it', lambda: 'size %s not examined: %s' % (short(size), short_facts(st)))
    if two:
        l = [lit_at(R, cl, 0), lit_at(R, cl, 1)]
        got = {}
        for e in bp:
            for n in (0, 1):
                if strip(e[1]) == strip(('&', ('E', R.v('_binary_watches'), l[n], ''))):
                    got[n] = e[2]
        j(set(got) == {0, 1} and len(bp) == 2 or (None if calls(ev, 'watch_lit_bin') else False), 'a shortened clause of two literals becomes binary', lambda: '%s: %s' % ([short(e[1]) for e in bp], short_facts(st)))
        from rules.watches import entry
        for n, v in got.items():
            c, b = entry(v)
            j((None if c is None or b is None else eqs(c, cl) and eqs(b, l[1 - n]) or (None if fuzzy((c, b), (cl,)) else False)), 'a binary clause lists the other literal with each', lambda: short(v))
        j(not imp and not rei or False, 'a shortened clause of one literal implies it', 'a binary clause implies')
        old = sizefact(st, R, cl, lambda n: n > 2)
        j(old is True or (None if opaque(st) else False), 'a binary clause is listed once', lambda: short_facts(st))
    if one_:
        j(bool(wat) and same(st, wat[-1], 0) or False, 'a clause of one literal is no longer watched', lambda: '%s' % wat)
        l0 = xn(lit_at(R, cl, 0))
        v = val.get(l0, {TRUE_, FALSE_, UND_})
        if v == {TRUE_}:
            j(not imp, 'only an unassigned literal is implied', lambda: short_facts(st))
            if mode == 'LSCB':
                j(len(rei) == 1 and eqs(rei[0][0], lit_at(R, cl, 0)) and eqs(rei[0][1], cl) or False, 'a literal of a unit clause is lifted to root', lambda: short_facts(st))
        else:
            ok = len(imp) == 1 and eqs(imp[0][0], lit_at(R, cl, 0)) and eqs(imp[0][1], cl)
            j(ok or (None if opaque(st) else False), 'a shortened clause of one literal implies it', lambda: short_facts(st))
            j(TRUE_ not in v or (None if opaque(st) else False), 'only an unassigned literal is implied', lambda: short_facts(st))
    if one_ is False or two is True:
        j(not wat, 'a clause of two literals or more stays watched', lambda: '%s' % [short(x) for x in wat])
    if two is False and one_ is not True:
        j(not bp, 'only clauses of two literals become binary', lambda: short_facts(st))


def sizeis(st, t, n):
    if type(t) is int:
        return t == n
    r = holdsx(st, mk('==', t, n))
    if r is None:
        a = mk('==', t, n)
        if type(a) is int:
            return bool(a)
        for k, v in st.facts.items():
            if k[0] == '==' and v and any(type(x) is int for x in k[1:]) and any(eqs(x, t) for x in k[1:]):
                m = [x for x in k[1:] if type(x) is int][0]
                return m == n
            if k[0] == '==' and len(k) == 3:
                for x in k[1:]:
                    o = k[2] if x is k[1] else k[1]
                    if type(o) is int:
                        d = diff(t, x)
                        if d is not None and d != 0:
                            if o + d == n:
                                return v
                            if v:
                                return False
    return r


def subst_lv(t, lv, x):
    def go(y):
        if y == lv:
            return x
        if type(y) is tuple and y and y[0] in ('+', '-', '*') and len(y) == 3:
            return mk(y[0], go(y[1]), go(y[2]))
        return y
    return go(t)


def diff(a, b):
    """a - b when it is a constant"""
    def lin(t):
        if type(t) is int:
            return (), t
        if type(t) is tuple and t[0] in ('+', '-') and len(t) == 3 and type(t[2]) is int:
            x, c = lin(t[1])
            return x, c + (t[2] if t[0] == '+' else -t[2])
        return strip(t), 0
    (x, c), (y, d) = lin(a), lin(b)
    return c - d if x == y else None


# ------------------------------------------------------------ repair_watch_lists
def repair(P, E, R, rep):
    with rep.guard('repairing watch lists'):
        r = Run(P, E, R, rep, 'repair_watch_lists', cls=GC, proof=False, tracker=False, observer=False, stats=False)
        j = J(rep, 'repairing watch lists', r.where)
        lps = loops(r)
        for nm, long_ in (('_binary_watches', False), ('_watches', True)):
            V = R.v(nm)
            what = 'long lists' if long_ else 'binary lists'
            main = idx = W = None
            for l in lps:
                for st, ev in l.iters:
                    for f in list(st.facts) + list(ev):
                        for x in find(f, lambda x: x[0] == 'E' and type(x[1]) is tuple and x[1][0] == '&' and x[1][1][0] == 'E' and x[1][1][1] == V and l.own(x[2])):
                            if idx is None or x[2] == idx:
                                main, idx, W = l, x[2], x[1]
                        for x in find(f, lambda x: x[0] == 'iter' and type(x[1]) is tuple and x[1][0] == '&' and x[1][1][0] == 'E' and x[1][1][1] == V and l.own(x[2])):
                            if has(f, lambda y: y[0] == 'F' and str(y[2]).endswith('TSwatch::cl') and y[1] == x):
                                main, idx, W = l, x[2], x[1]
            if main is None:
                j(None, '%s: only clauses still watched stay' % what, 'no loop over the entries')
                continue
            lit = W[1][2]
            ix = lambda t: t[2] if type(t) is tuple and t[0] == 'iter' and strip(t[1]) == strip(W) else t
            ents = [('iter', W, idx), ('&', ('E', W, idx, 'napsat::NapSAT::TSwatch'))]
            ends = [lv for lv in lvars(main) - {idx} if any(strip(ix(x)) == strip(('call', 'std::size', W)) for x in main.init(lv))]
            end = ends[0] if ends else None
            j({ix(x) for x in main.init(idx)} == {0} or (False if all(type(ix(x)) is int for x in main.init(idx)) else None), '%s: every entry is examined' % what, lambda: '%s' % [short(x) for x in main.init(idx)])
            for st, ev in main.iters:
                if contradictory(st):
                    continue
                cls_ = set()
                for f in st.facts:
                    for x in find(strip(f), lambda x: x[0] == 'm' and x[1][0] == 'F' and x[1][2].endswith('TSwatch::cl') and x[1][1] in [strip(e) for e in ents]):
                        cls_.add(x)
                if not cls_:
                    j(None if opaque(st) else False, '%s: only clauses still watched stay' % what, lambda: 'an entry is passed over unexamined: ' + short_facts(st))
                    continue
                cl = cls_.pop()
                ni = ix(main.next(st, idx))
                ne = ix(main.next(st, end)) if end is not None else None
                er = [e for e in ev if e[0] == 'vmut' and e[2] == 'erase' and eqs(e[1], W)] + [e for e in ev if e[0] == 'pop' and eqs(e[1], W)]
                over = [e for e in ev if e[0] == 'w' and e[1][0] == 'E' and eqs(e[1][1], W) and e[1][2] == idx]
                dead = fld(st, R, cl, 'deleted')
                alive = dead is False
                unw = dead is True
                if long_:
                    w = fld(st, R, cl, 'watched')
                    l0, l1 = eqlit(st, lit_at(R, cl, 0), lit), eqlit(st, lit_at(R, cl, 1), lit)
                    s2 = sizefact(st, R, cl, lambda n: n > 2)
                    alive = alive and w is True and (l0 is True or l1 is True) and s2 is True
                    unw = unw or w is False or (l0 is False and l1 is False) or s2 is False
                if eqs(ni, mk('+', idx, 1)) and (end is None or ne == end) and not er:
                    j(alive or (None if opaque(st) else False), '%s: only clauses still watched stay' % what, lambda: short_facts(st))
                elif eqs(ni, idx) and (er or end is not None and eqs(ne, mk('-', end, 1))):
                    j(unw or (None if opaque(st) else False), '%s: only clauses no longer watched leave' % what, lambda: short_facts(st))
                    if er:
                        p = er[0][3] if er[0][0] == 'vmut' else None
                        good = p is not None and len(p) == 1 and ix(p[0]) == idx or er[0][0] == 'pop' and bool(over)
                        j(good or (None if p is not None and fuzzy(p, (idx,)) else False), '%s: the entry removed is the one examined' % what, lambda: short(p))
                    else:
                        good = any(strip(e[2]) == ('m', ('E', strip(W), strip(mk('-', end, 1)), ''), 0) for e in over)
                        j(good or (None if any(e[0] == 'lib' for e in ev) else False), '%s: the entry removed is the one examined' % what, lambda: '%s' % [(short(e[1]), short(e[2])) for e in over])
                elif eqs(ni, mk('+', idx, 1)):
                    j(False, '%s: every entry is examined' % what, 'the entry taking the place of a removed one is passed over')
                else:
                    j(None, '%s: every entry is examined' % what, '%s -> %s' % (short(idx), short(ni)))
            # after the entries, the list is cut; all lists are treated
            outer = [l for l in lps if l is not main and any(e[0] == 'L' and e[1:] == main.key for _, ev in l.iters for e in ev)]
            for l in outer:
                for st, ev in l.iters:
                    at = [i for i, e in enumerate(ev) if e[0] == 'L' and e[1:] == main.key]
                    if not at:
                        j(None, '%s: all lists are treated' % what, lambda: short_facts(st))
                        continue
                    bound = end if end is not None else ('call', 'std::size', W)
                    ex = [v for f, v in st.facts.items() if f[0] == '<' and ix(f[1]) == idx and eqs(ix(f[2]), bound)]
                    other = [f for f in st.facts if f[0] == '<' and has(f, lambda t: t == idx)]
                    j(ex and not ex[-1] or (False if ex or other else None), '%s: every entry is examined' % what, lambda: short_facts(st))
                    if end is not None:
                        rz = [e for e in ev[at[0]:] if e[0] == 'resize' and eqs(e[1], W)]
                        j(len(rz) == 1 and ix(rz[0][2]) == end or (None if any(e[0] in ('vmut', 'pop') for e in ev[at[0]:]) else False), '%s: the entries removed leave the list' % what, lambda: '%s' % [short(e[2]) for e in rz])
                    if l.own(lit):
                        i0 = l.init(lit)
                        j(all(type(x) is int and x <= 2 for x in i0) or (False if all(type(x) is int for x in i0) else None), '%s: all lists are treated' % what, lambda: 'from %s' % i0)
                        j(eqs(l.next(st, lit), mk('+', lit, 1)) or (None if fuzzy(l.next(st, lit), (lit,)) else False), '%s: all lists are treated' % what, lambda: short(l.next(st, lit)))
            for st, ret in r.outs:
                if outer and type(lit) is tuple and lit[0] == 'lv':
                    ex = [v for f, v in st.facts.items() if f[0] == '<' and f[1] == lit and strip(f[2]) in (strip(('call', 'std::size', R.v('_watches'))), strip(('call', 'std::size', R.v('_binary_watches'))))]
                    other = [f for f in st.facts if f[0] == '<' and has(f, lambda t: t == lit)]
                    j(ex and not ex[-1] or (False if other else None), '%s: all lists are treated' % what, lambda: short_facts(st))
        j.flush('long lists: only clauses still watched stay', 'long lists: only clauses no longer watched leave', 'binary lists: only clauses still watched stay', 'binary lists: only clauses no longer watched leave')


def eqlit(st, a, b):
    r = None
    for k, v in st.facts.items():
        if k[0] == '==' and len(k) == 3 and {strip(k[1]), strip(k[2])} == {strip(a), strip(b)}:
            r = v
    return r


# ------------------------------------------------------------ who deletes
def users(P, E, R, rep):
    """every other caller of delete_clause: the clause is a learned one that was just made, or a deletion asked for from outside"""
    with rep.guard('a clause used once only'):
        r = Run(P, E, R, rep, 'add_and_delete_clause', cls=GC, mode='LSCB', proof=False, tracker=False, observer=False, stats=False)
        j = J(rep, 'a clause used once only', r.where)
        for st, ret in r.outs:
            ev = st.cl[0]
            dl = [(i, e[2][0]) for i, e in enumerate(ev) if e[0] == 'call' and e[1] == 'delete_clause']
            for i, cl in dl:
                pops = [e[1] for e in ev[:i] if e[0] == 'pop']
                sets = []
                for nm in ('_binary_watches', '_watches'):
                    sets.append({strip(('&', ('E', R.v(nm), lit_at(R, cl, n), ''))) for n in (0, 1)})
                got = {strip(x) for x in pops}
                fix = any(e[0] == 'call' and e[1] in ('stop_watch', 'repair_watch_lists') for e in ev)
                k = 0 if got == sets[0] else 1 if got == sets[1] else None
                j(k is not None and len(pops) == 2 or (None if fix or any(e[0] in ('vmut', 'lib') for e in ev) else False), 'its watches are removed with it', lambda: '%s' % [short(x) for x in pops])
                if k is not None:
                    sz = [t for f in st.facts if f[0] in ('==', '<') for t in f[1:] if type(t) is tuple and (t[:2] == ('call', 'std::size') or strip(t) == strip(csize(R, cl)))]
                    dec = [sizefact(st, R, cl, (lambda n: n <= 2) if k == 0 else (lambda n: n > 2), t, 2) for t in sz]
                    j(True in dec or (None if opaque(st) and not dec else False), 'binary clauses are looked for in the binary lists', lambda: short_facts(st))
            if not dl:
                j(any(f[0] == '==' and v and UNDEFC in f[1:] for f, v in st.facts.items()) or (None if opaque(st) else False), 'the clause is deleted again', lambda: short_facts(st))
        j.flush('its watches are removed with it')
    with rep.guard('when clauses are shortened'):
        r = Run(P, E, R, rep, 'solve', cls=GC, mode='CB', pred=lambda f: len(f.params) == 0, proof=False, tracker=False, observer=False, stats=False)
        j = J(rep, 'when clauses are shortened', r.where)
        for st, ev in [x for l in loops(r) for x in l.iters] + [(st, st.cl[0]) for st, _ in r.outs]:
            at = [i for i, e in enumerate(ev) if e[0] == 'call' and e[1] == 'purge_clauses']
            if not at:
                continue
            ok = any(f[0] == '==' and v and any(strip(t) == strip(('call', 'std::size', R.v('_trail'))) for t in f[1:]) and any(strip(t) == ('m', R.f('_n_propagated_lits'), 0) for t in f[1:]) for f, v in st.facts.items())
            done = any(eq0(f) is not None and not v and type(eq0(f)) is tuple and eq0(f)[0] == 'r' and str(eq0(f)[-1]).endswith('::propagate') for f, v in st.facts.items())
            moved = [e[1] for e in ev[:at[0]] if e[0] == 'call' and e[1] in ('backtrack', 'restart', 'decide', 'imply_literal', 'repair_conflicts')]
            j(ok or done and not moved or (None if opaque(st) and not (done or moved) else False), 'only after complete propagation', lambda: short_facts(st))
        j.flush('only after complete propagation')
