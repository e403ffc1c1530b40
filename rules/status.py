"""S02: the solver's status changes only with a justification, and solving stops only with an answer or at the conflict limit."""
from rules.solver import *

SAT, UNSAT, UNKNOWN, ERROR = 0, 1, 2, 3
NAMES = {0: 'SAT', 1: 'UNSAT', 2: 'UNKNOWN', 3: 'ERROR'}


class W(SC):
    """records every write of the status with the path it is made on"""

    def setup(self, eng, st):
        SC.setup(self, eng, st)
        self.ws = []

    def reset(self):
        SC.reset(self)
        self.ws = []

    def write(self, eng, st, loc, val, site):
        SC.write(self, eng, st, loc, val, site)
        if loc == self.R.f('_status'):
            self.ws.append((st.copy(), val, site))


def vsz(t, R, name):
    """t is a size of the vector field"""
    if type(t) is not tuple:
        return False
    a = R.v(name)
    return t == ('call', 'std::size', a) or (t[0] == 'lv' and t[-1] == R.q(name)) or (t[0] == 'call' and t[1].endswith('size') and t[2:3] == (a,))


def fact(st, pred, val=True):
    """some fact of the path with that truth value satisfies pred"""
    for k, v in st.facts.items():
        if v == val:
            try:
                if pred(k):
                    return True
            except (IndexError, TypeError):
                pass
    return False


def eq0(k):
    """the term a fact compares with zero"""
    if k[0] == '==' and (k[1] == 0 or k[2] == 0):
        return k[2] if k[1] == 0 else k[1]
    return None


def known_empty(st, R, name):
    """the vector field is known empty / nonempty on this path (last decision)"""
    r = None
    for k, v in st.facts.items():
        t = eq0(k)
        if t is not None and vsz(t, R, name):
            r = v
    return r


def check(P, E, rep):
    R = Sol(P)
    writes_rule(P, E, R, rep)
    propagate(P, E, R, rep)
    solve(P, E, R, rep)
    solve_limit(P, E, R, rep)
    decide(P, E, R, rep)
    withdraw(P, E, R, rep)


STAT = '_status'


def stat(R):
    return mem(R.f(STAT))


def status_is(st, R, v):
    """the status held on this path is v (None: unknown)"""
    cur = st.store.get(R.f(STAT))
    if type(cur) is int:
        return cur == v
    return None


# ------------------------------------------------------------ every write of the status
def writes_rule(P, E, R, rep):
    loc = ('F', R.q(STAT))
    todo, seen = [fid for fid, f in P.funcs.items() if loc in E.direct[fid]], set()
    units = set()
    anch = {REC + '::' + a for a in ANCHORS}
    while todo:
        fid = todo.pop()
        if fid in seen:
            continue
        seen.add(fid)
        f = P.funcs[fid]
        q = f.qn.split('<')[0]
        cs = [c for c in E.callers(fid) if P.funcs[c].qn.startswith(REC) and not P.funcs[c].qn.endswith('::parse_command')]
        if q in anch or not cs or f.qn == REC + '::' + f.qn.split('::')[-1] and f.qn.split('::')[-1] == 'NapSAT':
            units.add(fid)
        else:
            todo += cs
    n = 0
    for fid in sorted(units):
        f = P.funcs[fid]
        nm = f.qn[len(REC) + 2:].split('<')[0]
        if not f.qn.startswith(REC) or nm in ('NapSAT', 'parse_dimacs', 'parse_command', 'try_and_learn_impl'):
            continue
        for mode in ('CB', 'GB'):
            with rep.guard('status writes of ' + nm):
                r = Run(P, E, R, rep, nm, j=0, pred=lambda g: g.fid == fid, cls=W, mode=mode, proof=False, tracker=False)
                j = J(rep, 'status written by %s [%s]' % (nm, mode), f.where())
                for st, val, site in r.C.ws:
                    n += 1
                    justify(j, R, r, st, val, nm)
                j.flush()
    # a learned clause may be empty; the analysis loop is looked at with its helpers opaque
    for mode in ('CB', 'GB'):
        for k, f in enumerate(P.fn(REC + '::try_and_learn_impl')):
            with rep.guard('status writes of learning'):
                r = Run(P, E, R, rep, 'try_and_learn_impl', j=k, cls=WL, mode=mode, proof=False, tracker=False)
                j = J(rep, 'status written by learning [%s/%d]' % (mode, k), f.where())
                for st, val, site in r.C.ws:
                    justify(j, R, r, st, val, 'learning')
                j.flush()


class WL(W):
    merge = False


def justify(j, R, r, st, val, nm):
    if type(val) is not int:
        if val == stat(R):
            return
        j(None, 'every status written is one of the four answers', lambda: 'status := ' + short(val))
        return
    old = lambda v: holdsx(st, mk('==', stat(R), v)) or fact(st, lambda k: k[0] == '==' and v in k[1:3] and has(k, lambda t: t == R.f(STAT)))
    if val == SAT:
        full = fact(st, lambda k: k[0] == '==' and has(k, lambda t: vsz(t, R, '_trail')) and has(k, lambda t: vsz(t, R, '_vars')) and is_off1(k, R))
        headok = fact(st, lambda k: k[0] == '<' and has(k[1], lambda t: t == R.f('_n_propagated_lits')) and vsz(k[2], R, '_trail'), False) or \
            fact(st, lambda k: k[0] == '==' and has(k, lambda t: t == R.f('_n_propagated_lits')) and has(k, lambda t: vsz(t, R, '_trail')))
        heap = fact(st, lambda k: eq0(k) is not None and has(k, lambda t: t[:2] == ('call', 'napsat::utils::heap::empty')), False) or \
            fact(st, lambda k: eq0(k) is not None and has(k, lambda t: t[:2] == ('call', 'napsat::utils::heap::size')))
        j((full and headok) or heap or False, 'SAT is answered only when all variables are assigned and propagated, or none is left to decide', lambda: 'facts: ' + short_facts(st))
    elif val == UNSAT:
        ok = fact(st, lambda k: eq0(k) is not None and has(k, lambda t: t[:2] == ('call', REC + '::clause_level'))) or \
            nm == 'learning' and st.store.get(R.f('_lit_buffer_size')) == 0 or \
            fact(st, lambda k: eq0(k) is not None and has(k, lambda t: t == R.f('_lit_buffer_size')) and not has(k, lambda t: t[0] in '+-')) or \
            fact(st, lambda k: type(eq0(k)) is tuple and eq0(k)[0] in ('-', 'call', 'lv', 'p') and nm == 'internal_add_clause' and
                 (has(eq0(k), lambda t: t == ('p', 1, '')) or False)) or \
            fact(st, lambda k: nm in ('graph_repair',) and type(eq0(k)) is tuple and (eq0(k)[:2] == ('call', 'std::size') or eq0(k)[0] == 'lv') and has(k, lambda t: t[0] == 'G')) or \
            fact(st, lambda k: nm == 'graph_repair' and has(k, lambda t: t[:2] == ('call', 'bitset::empty')), False)
        if not ok and fact(st, lambda k: has(k, lambda t: t[0] in ('r', 'app', 'u') and 'solver' not in str(t)[:0] and any(x in str(t) for x in ('any_of', 'all_of', 'none_of', 'find_if', 'count_if')))):
            ok = None
        j(ok, 'UNSAT is answered only for a clause without literals left at root level, or a conflict no backtracking repairs', lambda: 'facts: ' + short_facts(st))
    elif val == UNKNOWN:
        if nm.startswith('forget_assumption'):
            j(old(UNSAT), 'an UNSAT answer is withdrawn only when assumptions are removed', lambda: 'facts: ' + short_facts(st))
        elif nm.startswith('add_assumption'):
            j(True, 'an answer is withdrawn when an assumption is added')
        else:
            j(old(SAT), 'only a SAT answer is withdrawn here', lambda: 'facts: ' + short_facts(st))
    else:
        j(False, 'the error status is reserved to input files', 'status := %d in %s' % (val, nm))


def is_off1(k, R):
    """size(trail) == size(vars) - 1 in one of its forms"""
    a, b = k[1], k[2]
    if vsz(b, R, '_trail') or vsz(b, R, '_vars'):
        a, b = b, a
    if vsz(a, R, '_trail'):
        return type(b) is tuple and b[0] == '-' and vsz(b[1], R, '_vars') and b[2] == 1
    if vsz(a, R, '_vars'):
        return type(b) is tuple and b[0] == '+' and 1 in b[1:3] and (vsz(b[1], R, '_trail') or vsz(b[2], R, '_trail'))
    if type(a) is tuple and type(b) is tuple:
        for x, y in ((a, b), (b, a)):
            if x[0] == '-' and vsz(x[1], R, '_vars') and x[2] == 1 and vsz(y, R, '_trail'):
                return True
    return False


def short_facts(st):
    return '; '.join('%s%s' % ('' if v else 'not ', short(k)) for k, v in st.facts.items())[:400]


# ------------------------------------------------------------ propagate
def propagate(P, E, R, rep):
    HEAD = R.f('_n_propagated_lits')
    for mode in ('NCB', 'CB', 'LSCB', 'GB'):
        with rep.guard('propagate ' + mode):
            r = Run(P, E, R, rep, 'propagate', mode=mode, pred=lambda g: not g.params)
            j = J(rep, 'propagation loop [%s]' % mode, r.where)
            T = R.v('_trail')
            lps = loops(r)
            work = [l for l in lps if any(calls(ev, 'propagate_lit') for _, ev in l.iters)]
            if not work:
                j(None, 'the literal at the head is propagated', 'no propagation loop found')
            for l in work:
                for st, ev in l.iters:
                    it_propagate(j, R, l, st, ev, T, HEAD)
            for st, ret in r.outs:
                ex_propagate(j, R, r, st, ret, HEAD)
            j.flush('the literal at the head is propagated', 'answering that all is propagated means it is', 'propagation gives up only with an answer or at the conflict limit')


def head_lit(R, st, l, arg, T, HEAD):
    """arg is trail[head]"""
    return type(arg) is tuple and arg[0] == 'm' and arg[1][0] == 'E' and arg[1][1] == T and eqs(arg[1][2], mem(HEAD))


def it_propagate(j, R, l, st, ev, T, HEAD):
    ps = calls(ev, 'propagate_lit')
    rp = calls(ev, 'repair_conflicts')
    names = [e[1] if e[0] == 'call' else e[0] for e in ev]
    hw = [e for e in ev if e[0] == 'w' and e[1] == HEAD]
    cw = [e for e in ev if e[0] == 'w' and e[1] == R.f('_conflict_count')]
    fw = [(i, e) for i, e in enumerate(ev) if e[0] == 'w' and e[1][0] == 'F' and e[1][2].endswith('TSvar::propagated')]
    if not ps:
        already = fact(st, lambda k: eq0(k) is not None and has(k, lambda t: t[0] == 'F' and t[2].endswith('TSvar::propagated')), False)
        j(already or False, 'only literals already propagated are skipped', lambda: short_facts(st))
        j(len(hw) == 1 and eqs(hw[0][2], mk('+', mem(HEAD), 1)), 'the head moves one literal at a time', lambda: '%s' % [short(e[2]) for e in hw])
        return
    j(len(ps) == 1 and (head_lit(R, st, l, ps[0][0], T, HEAD) or (None if fuzzy(ps[0][0]) else False)), 'the literal at the head is propagated', lambda: '%s' % [short(c[0]) for c in ps])
    noconf = known_empty(st, R, '_conflicts')
    if noconf is None:
        j(bool(rp) or None if not hw else False, 'conflicts are looked for after every propagation', 'the set of conflicts is not examined')
        return
    if noconf:
        j(len(hw) == 1 and (eqs(hw[0][2], mk('+', mem(HEAD), 1)) or (None if fuzzy(hw[0][2]) else False)), 'the head moves past a literal propagated without conflict', lambda: '%s' % [short(e[2]) for e in hw])
        j(len(fw) == 1 and fw[0][1][2] == 1 and (eqs(fw[0][1][1], R.var(vart(ps[0][0]), 'propagated')) or None), 'a literal propagated without conflict is marked so', lambda: '%s' % [short(e[2]) for _, e in fw])
        j(not rp and not cw, 'conflicts are counted and repaired only when there are some', 'repair or count without conflict')
        j('restart' not in names and 'simplify_clause_set' not in names or None, 'restart and clause deletion follow conflicts')
        return
    j(not hw and not fw, 'a literal whose propagation met a conflict is not passed over', 'head or propagated flag changed')
    j(len(cw) == 1 and (eqs(cw[0][2], mk('+', mem(R.f('_conflict_count')), 1)) or (None if fuzzy(cw[0][2]) else False)), 'every conflict counts once', lambda: '%s' % [short(e[2]) for e in cw])
    j(len(rp) == 1 and names.index('repair_conflicts') > names.index('propagate_lit'), 'conflicts are repaired before propagating on', '%d repairs' % len(rp))
    lim = R.opt('conflict_limit')
    free = fact(st, lambda k: k[0] == '<' and k[2] == 0 and eqs(k[1], lim))
    within = fact(st, lambda k: k[0] == '<' and eqs(k[1], lim) and k[2] != 0 and has(k[2], lambda t: t == R.f('_conflict_count')) and off(k[2]) == 1, False)
    j(free or within or (None if not limit_facts(st, lim) else False), 'solving goes on only below the conflict limit', lambda: short_facts(st))
    o = status_after(st, R)
    j(o, 'solving goes on only if the repair did not prove unsatisfiability', lambda: short_facts(st))
    if 'simplify_clause_set' in names:
        j(fact(st, lambda k: eq0(k) is not None and eqs(eq0(k), R.opt('delete_clauses')), False), 'clauses are deleted only if enabled', lambda: short_facts(st))
        j(names.index('simplify_clause_set') > names.index('repair_conflicts'), 'clauses are deleted after the repair')
    elif fact(st, lambda k: eq0(k) is not None and eqs(eq0(k), R.opt('delete_clauses')), False):
        j(fact(st, lambda k: k[0] == '<' and has(k[1], lambda t: t == R.f('_n_learned_clauses')) and has(k[2], lambda t: t == R.f('_next_clause_elimination'))) or None,
          'clauses are deleted once the threshold is reached', lambda: short_facts(st))
    if 'restart' in names:
        j(fact(st, lambda k: eq0(k) is not None and eqs(eq0(k), R.opt('restarts')), False) and 'napsat::luby_counter::increment' in names and
          fact(st, lambda k: eq0(k) is not None and has(k, lambda t: t[0] == 'r' and 'luby' in str(t)), False) or False, 'the solver restarts only when the restart sequence says so', lambda: short_facts(st))
    elif fact(st, lambda k: eq0(k) is not None and eqs(eq0(k), R.opt('restarts')), False):
        j(fact(st, lambda k: eq0(k) is not None and has(k, lambda t: t[0] == 'r' and 'luby' in str(t))) or False, 'the solver restarts when the restart sequence says so', lambda: short_facts(st))


def off(t):
    """constant added to the count in a term"""
    if type(t) is tuple and t[0] == '+':
        return t[2] if type(t[2]) is int else t[1] if type(t[1]) is int else None
    return 0


def limit_facts(st, lim):
    return any(has(k, lambda t: eqs(t, lim)) for k in st.facts)


def status_after(st, R):
    """after the repair the status is not UNSAT (or is UNKNOWN)"""
    for k, v in st.facts.items():
        if k[0] == '==' and has(k, lambda t: t == R.f(STAT)):
            if v and UNKNOWN in k[1:3] and has(k, lambda t: t[0] == 'm' and t[1] == R.f(STAT) and t[2] != 0):
                return True
            if not v and UNSAT in k[1:3]:
                return True
    return False


def ex_propagate(j, R, r, st, ret, HEAD):
    ret = ret if type(ret) is int else None
    s = r.fin(st, R.f(STAT))
    if ret is None:
        j(None, 'the answer of propagation is a constant', short(ret))
        return
    lim = R.opt('conflict_limit')
    over = fact(st, lambda k: k[0] == '<' and k[2] == 0 and eqs(k[1], lim), False) and \
        fact(st, lambda k: k[0] == '<' and eqs(k[1], lim) and k[2] != 0 and has(k[2], lambda t: t == R.f('_conflict_count')) and off(k[2]) == 1)
    if ret:
        done = fact(st, lambda k: k[0] == '<' and eqs(k[1], mem(HEAD)) and vsz(k[2], R, '_trail'), False) or \
            fact(st, lambda k: k[0] == '==' and has(k, lambda t: t == HEAD) and has(k, lambda t: vsz(t, R, '_trail')))
        j(done, 'answering that all is propagated means it is', lambda: short_facts(st))
        j(fact(st, lambda k: k[0] == '==' and has(k, lambda t: vsz(t, R, '_trail')) and is_off1(k, R), False) or None, 'a complete assignment is reported as SAT', lambda: short_facts(st))
    else:
        ok = s in (SAT, UNSAT) or over
        for v in (UNSAT, SAT, ERROR):
            ok = ok or holds(st, mk('==', s, v))
        ok = ok or holds(st, mk('==', s, UNKNOWN)) is False
        j(ok or False, 'propagation gives up only with an answer or at the conflict limit', lambda: 'status %s; %s' % (short(s), short_facts(st)))
        if over and s not in (SAT, UNSAT):
            ev = st.cl[0]
            cut = max([i for i, e in enumerate(ev) if e[0] == 'L'] + [-1])
            j(not calls(ev[cut + 1:], 'repair_conflicts'), 'the conflict that exceeds the limit is kept for later', 'repaired before giving up')


# ------------------------------------------------------------ solve
def solve(P, E, R, rep):
    for inter in (0,):
        with rep.guard('solve'):
            r = Run(P, E, R, rep, 'solve', pred=lambda g: not g.params, opts={'interactive': inter, 'print_live_stats': 0}, observer=False)
            j = J(rep, 'solve', r.where)
            for st, ret in r.outs:
                ev = st.cl[0]
                s = r.fin(st, R.f(STAT))
                j(same(st, ret, s) or (None if fuzzy(ret) else False), 'the answer returned is the status held', lambda: '%s vs %s' % (short(ret), short(s)))
                e0 = holds(st, mk('==', stat(R), UNKNOWN))
                acts = [c for c in ('propagate', 'decide', 'purge_clauses') if calls(ev, c)]
                if e0 is False:
                    j(not acts, 'a decided status is returned at once', 'calls ' + ', '.join(acts))
                    continue
                j(e0 or (False if acts else None), 'work starts only from the undecided status', lambda: short_facts(st))
                fail = fact(st, lambda k: eq0(k) is not None and has(k, lambda t: t[0] == 'r' and 'propagate' in str(t)))
                dec = any(holds(st, mk('==', s, v)) for v in (SAT, UNSAT))
                j(dec or fail or False, 'solving stops only with an answer or when propagation gave up', lambda: short_facts(st))
            for l in loops(r):
                for st, ev in l.iters:
                    names = [e[1] for e in ev if e[0] == 'call']
                    if 'propagate' not in names:
                        continue
                    ok = fact(st, lambda k: eq0(k) is not None and has(k, lambda t: t[0] == 'r' and 'propagate' in str(t)), False)
                    bad = fact(st, lambda k: eq0(k) is not None and has(k, lambda t: t[0] == 'r' and 'propagate' in str(t)))
                    i = names.index('propagate')
                    j(names.count('propagate') == 1 and i == 0, 'every round starts by propagating', str(names))
                    if 'decide' in names:
                        neg = [k for k, v in st.facts.items() if not v and k[0] == '==' and has(k, lambda t: t == R.f(STAT))]
                        both = any(UNSAT in k for k in neg) and any(UNKNOWN in k for k in neg)
                        j(ok or (bad and both) or False, 'a decision follows a complete propagation', lambda: short_facts(st))
                        j(names.count('decide') == 1 and 'purge_clauses' not in names, 'one decision per round', str(names))
                    elif 'purge_clauses' in names:
                        root = fact(st, lambda k: eq0(k) is not None and vsz(eq0(k), R, '_decision_index'))
                        full = fact(st, lambda k: k[0] == '==' and has(k, lambda t: t == R.f('_n_propagated_lits')) and has(k, lambda t: vsz(t, R, '_trail')))
                        j(root and full or False, 'clauses are purged at root level with everything propagated', lambda: short_facts(st))
                        w = writes(ev, R.f('_purge_threshold'))
                        j(len(w) == 1 and (has(w[0], lambda t: t == R.f('_n_root_lvl_lits')) and has(w[0], lambda t: t == R.f('_purge_inc'))) or (None if w else False), 'the next purge waits for new root literals', lambda: '%s' % [short(x) for x in w])
                    else:
                        j(False, 'every round decides, purges or stops', lambda: short_facts(st))
            j.flush('a decided status is returned at once', 'every round starts by propagating')


def solve_limit(P, E, R, rep):
    with rep.guard('solve with a limit'):
        r = Run(P, E, R, rep, 'solve', pred=lambda g: len(g.params) == 1)
        j = J(rep, 'solve with a conflict limit', r.where)
        L = ('F', R.v('_options'), 'napsat::options::conflict_limit')
        for st, ret in r.outs:
            ev = st.cl[0]
            names = [(e[1] if e[0] == 'call' else e[1]) for e in ev]
            i = [k for k, e in enumerate(ev) if e[0] == 'call' and e[1] == 'solve']
            j(len(i) == 1, 'it solves once', '%d calls' % len(i))
            if len(i) != 1:
                continue
            before = [e[2] for e in ev[:i[0]] if e[0] == 'w' and e[1] == L]
            after = [e[2] for e in ev[i[0]:] if e[0] == 'w' and e[1] == L]
            j(bool(before) and (eqt(st, before[-1], r.p(0)) or (None if has(before[-1], lambda t: t == r.p(0)) else False)), 'the limit given is in force', lambda: '%s' % [short(x) for x in before])
            j(bool(after) and (same(st, after[-1], mem(L)) or (None if fuzzy(after[-1]) else False)), 'the configured limit is restored', lambda: '%s' % [short(x) for x in after])
            cnt = [e[2] for e in ev[:i[0]] if e[0] == 'w' and e[1] == R.f('_conflict_count')]
            j(bool(cnt) and cnt[-1] == 0, 'conflicts are counted from zero', lambda: '%s' % [short(x) for x in cnt])
            j(type(ret) is tuple and (ret[0] == 'r' and 'solve' in str(ret) or has(ret, lambda t: t[0] == 'r') or same(st, ret, r.fin(st, R.f(STAT)))) or False, 'the answer of that call is returned', lambda: short(ret))
        j.flush()


# ------------------------------------------------------------ decide
def decide(P, E, R, rep):
    H = R.v('_variable_heap')
    with rep.guard('decide'):
        r = Run(P, E, R, rep, 'decide', pred=lambda g: not g.params, cls=W)
        j = J(rep, 'choosing a decision', r.where)
        top = lambda t: t[:3] == ('call', 'napsat::utils::heap::top', H)
        for st, ret in r.outs:
            ev = st.cl[0]
            im = calls(ev, 'imply_literal')
            empty = [v for k, v in st.facts.items() if eq0(k) is not None and has(k, lambda t: t[:2] in (('call', 'napsat::utils::heap::empty'), ('call', 'napsat::utils::heap::size')))]
            if im:
                j(len(im) == 1 and ret == 1, 'a decision is made once and reported', lambda: '%d, returns %s' % (len(im), short(ret)))
                j(same(st, im[0][1], UNDEFC), 'a decision has no reason', lambda: short(im[0][1]))
                j(has(im[0][0], top) or None, 'the decision is the top of the heap', lambda: short(im[0][0]))
                und = fact(st, lambda k: k[0] == '==' and 2 in k[1:3] and has(k, lambda t: t[0] == 'F' and t[2].endswith('TSvar::state')) and has(k, top))
                j(und or (None if has(im[0][0], lambda t: t[0] == 'lv') else False), 'a decision is an unassigned variable', lambda: short_facts(st))
            else:
                w = writes(ev, R.f(STAT))
                j(ret == 0 and w and w[-1] == SAT or False, 'no variable left means SAT', lambda: 'returns %s, status %s' % (short(ret), w))
        for l in loops(r):
            for st, ev in l.iters:
                po = calls(ev, 'napsat::utils::heap::pop')
                if po:
                    asg = fact(st, lambda k: k[0] == '==' and 2 in k[1:3] and has(k, lambda t: t[0] == 'F' and t[2].endswith('TSvar::state')) and has(k, top), False)
                    j(asg or False, 'only assigned variables are dropped from the heap', lambda: short_facts(st))
        j.flush('a decision is made once and reported', 'no variable left means SAT')


# ------------------------------------------------------------ withdrawing answers
def withdraw(P, E, R, rep):
    def notsat(st, r):
        s = r.fin(st, R.f(STAT))
        return same(st, s, UNKNOWN) or (holds(st, mk('==', s, SAT)) is False) or (type(s) is int and s != SAT) or \
            (UNKNOWN in writes(st.cl[0], R.f(STAT)) or fact(st, lambda k: k[0] == '==' and SAT in k[1:3] and has(k, lambda t: t == R.f(STAT)), False))

    for nm, mode, pred, cond, txt in (
            ('backtrack', 'CB', lambda g: 'Tlevel' in g.params[0]['t'], lambda r, st, ev: bool(calls(ev, 'var_unassign')) or any(e[0] in ('resize',) and e[1] == R.v('_trail') for e in ev), 'backtracking withdraws a SAT answer'),
            ('var_allocate', 'CB', None, lambda r, st, ev: any(e[0] == 'resize' and e[1] == R.v('_vars') for e in ev), 'a new variable withdraws a SAT answer')):
        with rep.guard(txt):
            r = Run(P, E, R, rep, nm, mode=mode, pred=pred)
            j = J(rep, nm, r.where)
            for st, ret in r.outs:
                if cond(r, st, st.cl[0]):
                    j(notsat(st, r) or False, txt, lambda: 'status after: %s; %s' % (short(r.fin(st, R.f(STAT))), short_facts(st)))
            j.flush(txt)
    with rep.guard('constrained'):
        fs = [f for f in P.fn(REC + '::var_mark_constrained')]
        r = Run(P, E, R, rep, 'var_mark_constrained', follow=('var_mark_constrained',))
        j = J(rep, 'a variable that becomes constrained', r.where)
        H = R.v('_variable_heap')
        for st, ret in r.outs:
            ev = st.cl[0]
            if holds(st, mk('==', mem(R.var(r.p(0), 'constrained')), 1)):
                j(not calls(ev, 'napsat::utils::heap::insert'), 'a constrained variable is registered once')
                continue
            j(notsat(st, r) or False, 'a newly constrained variable withdraws a SAT answer', lambda: short_facts(st))
            ins = [c for c in calls(ev, 'napsat::utils::heap::insert') if c[0] == H]
            j(len(ins) == 1 and eqs(ins[0][1], r.p(0)), 'it becomes available to decisions', lambda: '%d insertions' % len(ins))
            j(eqt(st, r.fin(st, R.var(r.p(0), 'constrained')), 1), 'it is marked constrained')
        j.flush('a newly constrained variable withdraws a SAT answer')
    for nm in ('repair_conflicts',):
        with rep.guard(nm):
            r = Run(P, E, R, rep, nm, mode='CB', cls=RC)
            j = J(rep, 'repairing conflicts', r.where)
            n = 0
            for st, nmc in r.C.at:
                n += 1
                j(notsat(st, r) or False, 'a conflict withdraws a SAT answer before it is repaired', lambda: '%s with status %s' % (nmc, short(r.fin(st, R.f(STAT)))))
            j.flush('a conflict withdraws a SAT answer before it is repaired')
    for mode in ('CB', 'GB'):
        with rep.guard('new clause ' + mode):
            r = Run(P, E, R, rep, 'internal_add_clause', mode=mode, cls=IC, proof=False, tracker=False)
            j = J(rep, 'adding a falsified clause [%s]' % mode, r.where)
            for st, ret in r.outs:
                ev = st.cl[0]
                if not pushes(ev, R.v('_conflicts')):
                    continue
                j(bool(calls(ev, 'repair_conflicts')) or notsat(st, r) or False, 'a falsified clause withdraws a SAT answer', lambda: short_facts(st))
            j.flush('a falsified clause withdraws a SAT answer')
    for k, f in enumerate(P.fn(REC + '::forget_assumption')):
        with rep.guard('forget ' + str(k)):
            r = Run(P, E, R, rep, 'forget_assumption', j=k, mode='GB')
            j = J(rep, 'removing assumptions', r.where)
            for st, ret in r.outs:
                ev = st.cl[0]
                was = holds(st, mk('==', stat(R), UNSAT))
                if was is None:
                    was = fact(st, lambda k: k[0] == '==' and UNSAT in k[1:3] and has(k, lambda t: t == R.f(STAT)))
                if was:
                    w = writes(ev, R.f(STAT))
                    j(UNKNOWN in w and bool(calls(ev, 'repair_conflicts')), 'removing assumptions from an UNSAT state repairs the pending conflicts and resumes', lambda: '%s %s' % (w, [e[1] for e in ev if e[0] == 'call']))
            j.flush()


class RC(SC):
    """status at the calls that repair"""

    def reset(self):
        SC.reset(self)
        self.at = []

    def setup(self, eng, st):
        SC.setup(self, eng, st)
        self.at = []

    def call2(self, eng, st, c):
        q = c.qn.split('<')[0].split('::')[-1]
        if q in ('level_repair', 'graph_repair'):
            self.at.append((st.copy(), q))
        return SC.call2(self, eng, st, c)


class IC(SC):
    pass
