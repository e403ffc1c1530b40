"""I02: the interface acts on and reports the solver's own state; I03: the program reports what the solver concluded."""
from rules.dimacs import *
from rules.solver import Sol

P0 = ('p', 0, '')
# interface function (number of parameters) -> operation of the solver, the parameters it is given in order
COMMANDS = {('new_variable', 1): ('new_variable', ()), ('parse_dimacs', 2): ('parse_dimacs', (1,)), ('propagate', 1): ('propagate', ()), ('decide', 1): ('decide', ()), ('decide', 2): ('decide', (1,)),
            ('add_assumption', 2): ('assume', (1,)), ('forget_assumption', 2): ('forget_assumption', (1,)), ('forget_assumption', 1): ('forget_assumption', ()), ('solve', 1): ('solve', ()),
            ('solve_limited', 2): ('solve', (1,)), ('start_new_clause', 1): ('start_clause', ()), ('push_literal', 2): ('add_literal', (1,)), ('finalize_clause', 1): ('finalize_clause', ()),
            ('add_clause', 3): ('add_clause', (1, 2)), ('synchronize', 1): ('synchronize', ()), ('unsat_core', 1): ('unsat_core', ()), ('clause_unsat_core', 1): ('clause_unsat_core', ())}
TARGETS = {m for m, _ in COMMANDS.values()} | {'add_assumption', 'internal_add_clause', 'imply_literal', 'hint', 'repair_conflicts', 'backtrack', 'restart', 'purge_clauses'}
QUERIES = ('get_status', 'get_variable_value', 'is_root_level', 'is_decided', 'variables_count', 'get_partial_assignment')


class AC(OC):
    """operations of the solver the interface hands over to are events"""

    def inline(self, eng, fid, qn, depth):
        q = qn.split('<')[0]
        if q.startswith(N):
            return q[len(N):] not in TARGETS and 'NapSAT' not in q[len(N):] and '::' not in q[len(N):] and depth < 6
        return q.startswith(NS) and not q.startswith((NS + 'proof', NS + 'statistics', NS + 'options')) and not q.startswith('sentinel')

    def call(self, eng, st, c):
        q = c.qn.split('<')[0]
        if q.startswith(N) and q[len(N):] in TARGETS:
            self.emit(st, 'call', q[len(N):], (c.this,) + tuple(c.args))
        elif q.startswith(NS + 'proof::') and q.split('::')[-1] in ('check_proof', 'print_proof'):
            self.emit(st, 'call', q.split('::')[-1], (c.this,) + tuple(c.args))
        return OC.call(self, eng, st, c)


def check(P, E, rep):
    for n, f in (('commands', commands), ('queries', queries), ('variables', variables), ('costs', costs), ('assumptions', assumptions), ('synchronisation', syncs)):
        with rep.guard(n):
            f(P, E, rep)


def api(P):
    return {(f.qn[len(NS):], len(f.params), 'vector' in str([p.get('t') for p in f.params])): f for f in P.funcs.values()
            if f.qn.startswith(NS) and '::' not in f.qn[len(NS):] and f.params and (f.file.endswith('SAT-API.cpp') or 'NapSAT *' in str(f.params[0].get('t')) and not f.file.endswith('.hpp'))}


def isresult(t, m):
    return type(t) is tuple and (t[0] == 'r' and str(t[2]).split('::')[-1] == m or t[0] == 'call' and str(t[1]) in (N + m,))


def effects2(ev):
    return [e for e in ev if e[0] in ('w', 'push', 'pop', 'resize', 'clear', 'vmut', 'bits', 'new', 'del') and has(e[1:], lambda t: t == P0 or t == THIS or t[0] == 'F' and N in str(t[2])) or e[0] == 'call']


def arg_ok(a, k):
    """argument a is parameter k"""
    p = ('p', k, '')
    s = strip(a)
    if type(s) is tuple and s[0] == 'call' and s[1] == '~lit':
        return False
    if any(evt(s, {p: x}) not in (None, x) for x in (1, 300, 70000)):
        return False
    return True if s == p or a in (('loc', ('D', p)),) or type(a) is tuple and a[0] == 'loc' and type(a[1]) is tuple and a[1][0] == 'D' and a[1][1] == p else False if not has(a, lambda t: t == p) else None


def commands(P, E, rep):
    A = api(P)
    for (name, n), (m, args) in COMMANDS.items():
        vec = False
        f = A.get((name, n, vec))
        if f is None:
            rep.undecided('%s/%d: hands over to the solver' % (name, n), '', '', 'function not found')
            continue
        r = Run(P, E, OC.R(), rep, name, func=f, cls=AC)
        j = J(rep, '%s/%d' % (name, n), r.where)
        for st, ret in r.outs:
            ev = st.cl[0]
            cs = [e for e in ev if e[0] == 'call']
            what = lambda: '%s; answer %s' % (show(tuple(ev)), short(ret))
            mine = [e for e in cs if e[1] == m]
            j(len(mine) == 1 and len(cs) == 1 if mine or cs or not effects2(ev) else None, 'does one thing, the operation of its name', what)
            if len(mine) == 1:
                a = mine[0][2]
                j(a[0] in (P0, ('&', ('D', P0))) or None, 'acts on the solver given', what)
                got = [arg_ok(x, k) for x, k in zip(a[1:], args)]
                j(False if len(a) - 1 < len(args) or False in got else None if None in got else True, 'passes on what it was given', what)
                if f.ret != 'void':
                    if isresult(strip(ret), m):
                        v = True
                    elif type(ret) is int:
                        fs = [(strip(k), b) for k, b in st.facts.items() if strip(k)[0] == '==' and isresult(strip(k)[1], m) and strip(k)[2] == 0]
                        v = None if not fs else all(bool(ret) != b for _, b in fs)
                        v = False if not st.facts else v
                    else:
                        v = False if not has(ret, lambda t: isresult(t, m)) or ret[0] in ('==', '!', '+', '-') else None
                    j(v, 'answers what the solver answers', what)
            rest = [e for e in effects2(ev) if e[0] != 'call']
            j(not rest, 'changes nothing else', what)
        j.flush('does one thing, the operation of its name')
    f = next((g for (n, k, v), g in A.items() if n == 'suggest_polarity'), None)
    if f:
        r = Run(P, E, OC.R(), rep, 'suggest_polarity', func=f, cls=AC)
        j = J(rep, 'suggest_polarity', r.where)
        for st, ret in r.outs:
            w = [e for e in st.cl[0] if e[0] == 'w']
            for pol in (0, 1):
                if any(evt(strip(k), {('p', 2, ''): pol}) == (0 if b else 1) for k, b in st.facts.items()):
                    continue
                v = [evt(strip(e[2]), {('p', 2, ''): pol}) for e in w]
                j(None if None in v else v == [pol] and has(w[0][1], lambda t: t == ('p', 1, '')), 'the polarity given becomes the one of the variable', lambda: show(tuple(st.cl[0])))
        j.flush('the polarity given becomes the one of the variable')
    for name, key in (('check_proof', 'check_proof'), ('print_proof', 'print_proof')):
        f = A.get((name, 1, False))
        if not f:
            continue
        r = Run(P, E, OC.R(), rep, name, func=f, cls=AC)
        j = J(rep, name + '/1', r.where)
        for st, ret in r.outs:
            cs = [e for e in st.cl[0] if e[0] == 'call']
            what = lambda: '%s; answer %s' % (show(tuple(st.cl[0])), short(ret))
            j(len(cs) == 1 and cs[0][1] == key and has(cs[0][2][0], lambda t: t[-1] == N + '_proof'), 'does one thing, the operation of its name', what)
            if name == 'check_proof' and cs:
                j(isresult(strip(ret), key) or type(strip(ret)) is tuple and strip(ret)[0] == 'call' and strip(ret)[1].endswith('::check_proof') or (False if type(ret) is int and not st.facts or type(ret) is tuple and ret[0] in ('==', '!') else None), 'answers what the solver answers', what)
        j.flush('does one thing, the operation of its name')
    f = next((g for (n, k, v), g in A.items() if n == 'create_solver'), None) or next((g for g in P.funcs.values() if g.qn == NS + 'create_solver'), None)
    if f:
        r = Run(P, E, OC.R(), rep, 'create_solver', func=f, cls=AC)
        j = J(rep, 'create_solver', r.where)
        for st, ret in r.outs:
            nw = [e for e in st.cl[0] if e[0] == 'new' and 'NapSAT' in str(e[1])]
            a = nw[0][2][0] if len(nw) == 1 and nw[0][2] else None
            a = list(a[2:]) if type(a) is tuple and a[0] == 'ctor' else None
            j(None if a is None else len(a) == 3 and a[0] == P0 and a[1] == ('p', 1, '') and has(a[2], lambda t: t == ('p', 2, '')) and strip(ret) == strip(nw[0][1]), 'makes one solver with what it was given', lambda: show(tuple(st.cl[0])))
        j.flush('makes one solver with what it was given')
    f = A.get(('delete_solver', 1, False))
    if f:
        r = Run(P, E, OC.R(), rep, 'delete_solver', func=f, cls=AC)
        j = J(rep, 'delete_solver', r.where)
        for st, ret in r.outs:
            d = [e for e in st.cl[0] if e[0] == 'del']
            j(len(d) == 1 and d[0][1] == P0, 'ends the solver given', lambda: show(tuple(st.cl[0])))
        j.flush('ends the solver given')


# ------------------------------------------------------------ queries
LEAF = {'_status': 'status', 'state': 'state', 'level': 'level', 'reason': 'reason'}


def leaf(t, base):
    """(field, argument) of a term that reads a field of the solver or of the variable asked for"""
    if t[0] == 'm' and type(t[1]) is tuple and t[1][0] == 'F':
        n = str(t[1][2]).split('::')[-1]
        if n in LEAF:
            if n == '_status':
                return 'status' if t[1][1] in base else None
            return LEAF[n] if has(t[1], lambda x: x == ('p', 1, '')) and any(has(t[1], lambda x, b=b: x == b) for b in base) else None
    if t[0] == 'call' and str(t[1]) in (N + 'var_reason', N + 'lit_reason', N + 'var_level', N + 'lit_level', N + 'var_value', N + 'lit_value') and has(t, lambda x: x == ('p', 1, '')):
        return {'reason': 'reason', 'level': 'level', 'value': 'state'}[str(t[1]).rsplit('_', 1)[1]]
    if t[0] == 'call' and t[1] == 'std::size' and has(t, lambda x: x[0] == 'F' and x[2] == N + '_vars'):
        return 'nvars'
    return None


def leaves(t, base):
    return {x: leaf(x, base) for x in walk(t, lambda x: x[0] in ('m', 'call') and leaf(x, base))}


def evq(t, env, base):
    """value of a query term"""
    def go(x):
        if type(x) in (int, bool):
            return int(x)
        if type(x) is not tuple:
            return None
        k = leaf(x, base)
        if k:
            return env.get(k)
        if x[0] == 'cast':
            return go(x[-1])
        if x[0] == '?' and len(x) == 4:
            c = go(x[1])
            return None if c is None else go(x[2] if c else x[3])
        xs = [go(y) for y in x[1:]]
        return None if None in xs or not xs else evt((x[0],) + tuple(xs), {})
    return go(t)


def queries(P, E, rep):
    A = api(P)
    UND_ = 2**32 - 1
    S = range(len(P.enums[NS + 'status']['vals'])) if NS + 'status' in P.enums else range(5)
    envs = {'get_status': [({'status': s}, s) for s in S],
            'get_variable_value': [({'state': s}, s) for s in (0, 1, 2)],
            'is_root_level': [({'level': l, 'state': 1}, int(l == 0)) for l in (0, 1, 2, 7, UND_)],
            'is_decided': [({'state': s, 'reason': c, 'level': l}, int(c == UND_)) for s in (0, 1) for c in (0, 5, UND_ - 1, UND_) for l in (0, 3) if not (c == UND_ and l == 0)],
            'variables_count': [({'nvars': n}, n) for n in (1, 2, 9)]}
    for name in QUERIES:
        f = next((g for (n, k, v), g in A.items() if n == name), None)
        if f is None:
            rep.undecided(name + ': reports the state', '', '', 'function not found')
            continue
        r = Run(P, E, OC.R(), rep, name, func=f, cls=AC)
        j = J(rep, name, r.where)
        base = (P0, ('&', ('D', P0)), ('D', P0), THIS)
        RU = 'reports the state of the solver'
        for st, ret in r.outs:
            j(not [e for e in effects2(st.cl[0]) if not (e[0] == 'call' and e[1].startswith(('var_', 'lit_')))], 'changes nothing', lambda: show(tuple(st.cl[0])))
        if name == 'get_partial_assignment':
            for st, ret in r.outs:
                j(ret == ('loc', ('F', P0, N + '_trail')) or (False if type(ret) is tuple and ret[0] == 'loc' and type(ret[1]) is tuple and ret[1][0] == 'F' and ret[1][1] == P0 else None), RU, lambda: short(ret))
            j.flush(RU)
            continue
        for env, want in envs[name]:
            hit = 0
            for st, ret in r.outs:
                vs = [evq(k, env, base) for k in st.facts]
                if any(v is not None and bool(v) != b for v, (k, b) in zip(vs, st.facts.items())):
                    continue
                v = evq(ret, env, base)
                if v is None and name == 'variables_count' and type(strip(ret)) is tuple and strip(ret)[:2] == ('call', 'std::size') and not has(ret, lambda t: t[0] == 'F' and t[2] in (N + '_vars', N + '_watches', N + '_binary_watches')):
                    v = -1  # the size of something else
                hit += 1
                unk = any(x is None for x in vs)
                j(None if v is None or unk and v != want else v == want, RU, lambda: '%s: answer %s' % (', '.join('%s %s' % kv for kv in env.items()), v))
            if not hit:
                j(None, RU, 'no path')
        j.flush(RU)


# ------------------------------------------------------------ variables
def variables(P, E, rep):
    R = Sol(P)
    for f in P.fn(N + 'new_variable'):
        r = Run(P, E, R, rep, 'new_variable', func=f)
        j = J(rep, 'a new variable', r.where)
        n = ('call', 'std::size', ('&', R.f('_vars')))
        for st, ret in r.outs:
            ev = st.cl[0]
            g = calls(ev, 'var_allocate')
            if not g:
                j(None, 'is the next one and the only one made', lambda: show(tuple(ev)))
                continue
            j(len(g) == 1 and eqt(st, g[0][0], n), 'is the next one and the only one made', lambda: show(tuple(ev)))
            pre = {t for t in walk(g[0][0], lambda t: t[:2] == ('call', 'std::size'))}
            szs = {t for t in walk(ret, lambda t: t[:2] == ('call', 'std::size'))} if type(ret) is tuple else set()
            late = [evt(ret, {t: k if t in pre else k + 1 for t in szs}) == k for k in (1, 5)] if szs - pre else []
            same_ = bool(szs) and not szs - pre and all(evt(ret, {t: k + 1 for t in szs}) == k for k in (1, 5))  # size read before or after: not told apart
            j(True if late and all(late) else None if same_ else eqt(st, ret, n), 'is the one answered', lambda: short(ret))
        j.flush('is the next one and the only one made')
    for f in P.fn(N + 'var_allocate'):
        r = Run(P, E, R, rep, 'var_allocate', func=f)
        j = J(rep, 'making the variables up to a number', r.where)
        p, V = r.p(0), R.f('_vars')
        n = ('call', 'std::size', ('&', V))
        CAP, B, BS = R.f('_lit_buffer_capacity'), R.f('_lit_buffer'), R.f('_lit_buffer_size')
        EXI, KEEP, WAT, BUF, COP, DEC, SET = ('they all exist afterwards', 'no variable is lost', 'each has its watch lists', 'the clause buffer can hold one literal of each', 'the literals in the buffer are kept',
                                              'each is to be assigned unless unused variables are ignored', 'each has room for its chunks')
        def val(t, e):
            def go(x):
                if type(x) in (int, bool):
                    return int(x)
                if type(x) is not tuple:
                    return None
                s = strip(x)
                for k, v in e.items():
                    if s == strip(k):
                        return v
                if x[0] == 'cast':
                    return go(x[-1])
                if x[0] in ('min', 'max'):
                    xs = [go(y) for y in x[1:]]
                    return None if None in xs else min(xs) if x[0] == 'min' else max(xs)
                xs = [go(y) for y in x[1:]]
                return None if None in xs or not xs else evt((x[0],) + tuple(xs), {})
            return go(t)
        sizes = [(1, 0), (1, 1), (1, 2), (3, 0), (3, 2), (3, 3), (3, 4), (3, 9)]
        for size, want in sizes:
            for cap in sorted({1, size, size + 1, want, want + 1, want + 2, want + 3, 2 * want + 5}):
                e0 = {p: want, n: size, ('m', CAP, 0): cap}
                for st, ret in r.outs:
                    ev = st.cl[0]
                    if any(v is not None and bool(v) != b for k, b in st.facts.items() for v in [val(k, e0)]):
                        continue
                    what = lambda: '%d variables, up to %d, capacity %d: %s' % (size - 1, want, cap, show(tuple(ev)))
                    rs = [e for e in ev if e[0] == 'resize' and e[1] == ('&', V) or e[0] == 'resize' and e[1] == V]
                    ns = [val(e[2], e0) for e in rs]
                    odd = [e for e in ev if e[0] in ('push', 'vmut', 'pop', 'clear') and e[1] in (V, ('&', V))]
                    if odd or None in ns:
                        j(None, EXI, what)
                        continue
                    end = ns[-1] if ns else size
                    j(end >= want + 1, EXI, what)
                    j(all(x >= size for x in ns), KEEP, what)
                    if end > size:
                        j(end == max(size, want + 1), 'no other variable is made', what)
                        for w in ('_watches', '_binary_watches'):
                            L = R.f(w)
                            ws = [val(e[2], e0) for e in ev if e[0] == 'resize' and e[1] in (L, ('&', L))]
                            j(None if None in ws else bool(ws) and ws[-1] >= 2 * end if ws or not any(e[0] in ('vmut', 'push') and e[1] in (L, ('&', L)) for e in ev) else None, WAT, what)
                        c2 = [val(e[2], e0) for e in ev if e[0] == 'w' and e[1] == CAP]
                        nw = [e for e in ev if e[0] == 'new' and e[3]]
                        if len(nw) == 1:
                            k = val(nw[0][2][0], e0)
                            cap2 = c2[-1] if c2 else cap
                            j(None if k is None or cap2 is None else k >= cap2 and cap2 >= end, BUF, what)
                            mc = [e for e in ev if e[0] == 'lib' and e[1] in ('memcpy', 'memmove')]
                            okc = [e for e in mc if strip(e[2][0]) == strip(nw[0][1]) and strip(e[2][1]) == strip(('m', B, 0))]
                            j(None if not mc else bool(okc) and (val(okc[0][2][2], {**e0, ('m', BS, 0): 3}) or 0) >= 12, COP, what)
                        else:
                            j(None if nw or None in c2 else cap >= end, BUF, what)
        # the loop over the new variables
        for l in loops(r):
            for st, ev in l.iters:
                lv = [t for e in ev for t in walk(e[1:], lambda t: t[0] in ('lv', 'lvb') and l.own(t))]
                mark = calls(ev, 'var_mark_constrained')
                if not lv and not mark:
                    continue
                ign = [b for k, b in st.facts.items() if has(k, lambda t: t[-1] == OREC + '::ignore_unused_variables') and strip(k)[0] == '==']
                # b: the option is off
                j(None if not ign else len(mark) == 1 if ign[0] else not mark, DEC, lambda: show(ev))
                ch = [e for e in ev if e[0] == 'bits' and e[1] == 'resize']
                j(len(ch) >= 2 and all(strip(e[3][0])[:2] == ('m', R.f('_n_allocated_chunks')) for e in ch) if ch else None, SET, lambda: show(ev))
        j.flush(EXI, KEEP, WAT, BUF, DEC)


def costs(P, E, rep):
    R = Sol(P)
    for f in P.fn(N + 'literal_cost'):
        r = Run(P, E, R, rep, 'literal_cost', func=f)
        j = J(rep, 'the cost of a literal', r.where)
        FN = R.f('_backtrack_cost_estimator')
        for st, ret in r.outs:
            isset = [not b if strip(k)[0] == '==' else b for k, b in st.facts.items() if has(k, lambda t: t == FN)]
            if not isset:
                j(None, 'is what the function given says', lambda: facts(st))
            elif isset[0]:
                mine = has(ret, lambda t: t == FN) and type(ret) is tuple and ret[0] in ('call', 'r')
                arg = strip(ret[-1]) if mine else None
                j(True if mine and (arg == r.p(0) or ret[0] == 'r') else None if mine and not (type(arg) is tuple and arg[:2] == ('call', '~lit')) and has(arg, lambda t: t == r.p(0)) else False, 'is what the function given says', lambda: short(ret))
            else:
                j(type(ret) is tuple and ret[0] == 'm' and str(ret[1][2]).endswith('::weight') and has(ret, lambda t: t == r.p(0)), 'is the weight of its variable otherwise', lambda: short(ret))
        j.flush('is what the function given says', 'is the weight of its variable otherwise')
    A = api(P)
    f = next((g for (n, k, v), g in A.items() if n == 'set_weight_function'), None)
    if f:
        r = Run(P, E, OC.R(), rep, 'set_weight_function', func=f, cls=AC)
        j = J(rep, 'set_weight_function', r.where)
        for st, ret in r.outs:
            w = [e for e in st.cl[0] if e[0] == 'w' and has(e[1], lambda t: t[-1] == N + '_backtrack_cost_estimator')]
            j(len(w) == 1 and has(w[0][2], lambda t: t == ('p', 1, '')), 'the function given is used from then on', lambda: show(tuple(st.cl[0])))
        j.flush('the function given is used from then on')


def simulate(r, l, seq):
    """(is the answer right,) when the operation in the loop answers seq in turn"""
    own = {t for s, rt in r.outs for x in [rt] + list(s.facts) for t in walk(x, lambda t: t[0] in ('lv', 'lvb') and l.own(t))} | {t for s, ev in l.iters for k in s.facts for t in walk(k, lambda t: t[0] in ('lv', 'lvb') and l.own(t))}
    env = {}
    for t in own:
        v = l.init(t)
        if len(v) == 1 and type(next(iter(v))) in (int, bool):
            env[strip(t)] = int(next(iter(v)))

    def results(st, extra=()):
        return {strip(t) for x in list(st.facts) + list(extra) for t in walk(x, lambda t: isresult(t, 'assume'))}

    def fits(st, e):
        return all(evt(strip(k), e) in (None, int(b)) for k, b in st.facts.items())
    for x in seq:
        nxt = []
        for st, ev in l.iters:
            e = dict(env)
            e.update({t: x for t in results(st, [l.next(st, t) for t in own])})
            if fits(st, e):
                nxt.append({strip(t): v for t in own for v in [evt(strip(l.next(st, t)), e) if l.next(st, t) is not None else None] if v is not None})
        ends = []
        for st, ret in r.outs:
            e = dict(env)
            rs = results(st)
            e.update({t: x for t in rs})
            if rs and fits(st, e):
                ends.append(evt(strip(ret), e))
        if ends and not nxt:
            return (None if None in ends else all(bool(v) == all(seq) for v in ends),)
        if len({tuple(sorted(n.items(), key=str)) for n in nxt}) != 1 or ends:
            return (None,)
        env = nxt[0]
    ends = [evt(strip(ret), env) for st, ret in r.outs if not results(st) and fits(st, env)]
    return (None if not ends or None in ends else all(bool(v) == all(seq) for v in ends),)


def assumptions(P, E, rep):
    A = api(P)
    f = A.get(('add_assumption', 2, True))
    if f is None:
        return rep.undecided('add_assumption (list): each is added', '', '', 'function not found')

    class LC(AC):
        def inline(self, eng, fid, qn, depth):
            return qn.split('<')[0] == N + 'add_assumption' or AC.inline(self, eng, fid, qn, depth)

        def call(self, eng, st, c):
            if c.qn == N + 'add_assumption':
                return OC.call(self, eng, st, c)
            return AC.call(self, eng, st, c)
    r = Run(P, E, OC.R(), rep, 'add_assumption', func=f, cls=LC)
    j = J(rep, 'a list of assumptions', r.where)
    EACH, ANS = 'each is added', 'success is answered exactly when each was added'
    n = 0
    for l in loops(r):
        for st, ev in l.iters:
            cs = [e for e in ev if e[0] == 'call' and e[1] == 'assume']
            n += len(cs)
            j(len(cs) == 1 and has(cs[0][2][1], lambda t: t[0] == 'E' and has(t, lambda x: x == ('p', 1, ''))), EACH, lambda: show(ev))
        if n:
            for seq in [(), (1,), (0,), (1, 1), (0, 1), (1, 0), (0, 0), (1, 0, 1)]:
                j(*simulate(r, l, seq), ANS, lambda: 'answers of the single ones %s' % (seq,))
    if not n:
        j(False if not any(e[0] == 'call' for st, _ in r.outs for e in st.cl[0]) else None, EACH, 'none is')
    j.flush(EACH)


def syncs(P, E, rep):
    R = Sol(P)
    for f in P.fn(N + 'synchronize'):
        r = Run(P, E, R, rep, 'synchronize', func=f)
        j = J(rep, 'synchronising', r.where)
        IDX, T = R.f('_sync_validity_index'), R.f('_trail')
        REC_, ALL, LIM = 'each literal of the trail is recorded with its value', 'from the first that may have changed to the last', 'all of the trail counts as unchanged afterwards'
        for l in loops(r):
            for st, ev in l.iters:
                w = [e for e in ev if e[0] == 'w' and str(e[1][2]).endswith('::synced')]
                if w:
                    v = w[0][2]
                    for s in (0, 1):
                        x = [t for t in walk(v, lambda t: t[0] == 'm' and str(t[1][2]).endswith('::state'))] if type(v) is tuple else []
                        if any(strip(k) == ('==', strip(t), s) and not b for t in x for k, b in st.facts.items()):
                            continue
                        j(None if not x else evt(strip(v), {strip(x[0]): s}) == s if evt(strip(v), {strip(x[0]): s}) is not None else None, REC_, lambda: short(v))
                else:
                    # already recorded with its value
                    j(any(has(k, lambda t: t[0] == 'm' and str(t[1][2]).endswith('::synced')) and b for k, b in st.facts.items()), REC_, lambda: facts(st))
            for st, ret in r.outs:
                lvs = {t for k in st.facts for t in walk(k, lambda t: t[0] in ('lv', 'lvb') and l.own(t))}
                for lv in lvs:
                    i = l.init(lv)
                    far = any(v is not None and v > k for x in i for k in (0, 1, 4) for v in [evt(strip(x), {strip(('m', IDX, 0)): k})])
                    j(False if far else True if all(strip(x) in (0, strip(('m', IDX, 0))) for x in i) else None, ALL, lambda: 'from %s' % ' '.join(short(x) for x in i))
                    j(covers(st, lv, ('call', 'std::size', ('&', T))), ALL, lambda: facts(st))
        for st, ret in r.outs:
            w = [e for e in st.cl[0] if e[0] == 'w' and e[1] == IDX]
            j(bool(eqt(st, w[-1][2], ('call', 'std::size', ('&', T)))) if w else any(has(k, lambda t: t == ('m', IDX, 0)) for k in st.facts) or False, LIM, lambda: show(tuple(st.cl[0])))
        j.flush(REC_, ALL)


# ------------------------------------------------------------ the program
class MC(OC):
    """the interface is opaque; everything written to the standard output is an event"""
    keeplocals = True
    API = ('create_solver', 'delete_solver', 'parse_dimacs', 'solve', 'solve_limited', 'get_status', 'check_proof', 'print_proof', 'print_statistics', 'synchronize', 'get_partial_assignment', 'add_clause',
           'start_new_clause', 'push_literal', 'finalize_clause', 'status_to_string', 'get_variable_value', 'propagate', 'decide')

    def inline(self, eng, fid, qn, depth):
        q = qn.split('<')[0]
        f = eng.P.funcs.get(fid)
        return f is not None and f.file.endswith('main.cpp') and q != 'main' and depth < 5

    def call(self, eng, st, c):
        q = c.qn.split('<')[0]
        nm = q[len(NS):] if q.startswith(NS) else None
        if q == NS + 'get_status' and c.args:
            k = len([e for e in st.cl[0] if e[0] == 'call' and e[1] in ('solve', 'solve_limited', 'add_clause', 'parse_dimacs')])
            return [(st, ('call', 'api::status', k))]
        if nm in self.API:
            args = tuple(eng.unloc(st, a) if not (type(a) is tuple and a[0] == 'loc' and a[1][0] == 'L' and False) else a for a in c.args)
            if nm == 'get_partial_assignment':
                return [(st, ('loc', ('G', 'api::trail')))]
            self.emit(st, 'call', nm, args)
            if nm in ('solve', 'solve_limited', 'create_solver', 'parse_dimacs', 'check_proof', 'add_clause', 'finalize_clause'):
                return [(st, ('r', absint.S(c.ctx, c.node), nm))]
            return [(st, 0)]
        if c.name == 'exit':
            self.emit(st, 'exit', tuple(eng.unloc(st, a) for a in c.args))
        if c.name == 'operator<<' and len(c.args) in (1, 2):
            a = ([c.this] if c.method else []) + list(c.args)
            x = a[1] if len(a) > 1 else None
            self.emit(st, 'out', a[0], eng.unloc(st, x))
            return [(st, a[0])]
        return OC.call(self, eng, st, c)


def program(P, E, rep):
    f = next((f for f in P.funcs.values() if f.qn == 'main'), None)
    if f is None:
        return rep.undecided('the program', '', '', 'no main function')
    r = Run(P, E, OC.R(), rep, 'main', func=f, cls=MC)
    j = J(rep, 'the program', r.where)
    ST = P.enums[NS + 'status']['vals']
    LINE = {'SAT': 's SATISFIABLE', 'UNSAT': 's UNSATISFIABLE', 'TIMEOUT': 's TIMEOUT'}
    VER, BADF, END, PRF, PRP, ONE, BLK, ALLM, ARG = ('prints the verdict of the solver, and no other', 'a file that cannot be read is an error and nothing is concluded', 'ends the solver it made',
        'the proof is checked when asked for and unsatisfiable, and a wrong one is reported', 'the proof is printed exactly when asked for and unsatisfiable', 'the formula of the file is solved once',
        'each model found is excluded before the next is looked for', 'models are looked for until there is none', 'reads the file named')

    def argument(t):
        """is the term the first argument of the program?"""
        es = [x for x in walk(t, lambda x: x[0] == 'E' and has(x[1], lambda y: y == ('p', 1, '')))]
        if any(x[2] == 1 for x in es):
            return True
        vs = [evt(strip(x[2]), {('p', 0, ''): n}) for x in es for n in (4, 9) if x[1] in (('p', 1, ''), ('D', ('p', 1, '')))]
        return False if vs and None not in vs and any(v not in (1, 2) for v in vs) else None

    def option(st, name):
        """what the path knows of an option: True, False, None"""
        for k, b in st.facts.items():
            s = strip(k)
            if s[0] == '==' and s[2] == 0 and has(s[1], lambda t: str(t[-1]).endswith('options::' + name) or t[0] == 'F' and str(t[2]).endswith('::' + name)):
                return not b
        return None
    ncreate = 0
    for st, ret in r.outs:
        ev = st.cl[0]
        cs = [e for e in ev if e[0] == 'call']
        names = [e[1] for e in cs]
        if 'create_solver' not in names:
            continue
        ncreate += 1
        out = ''.join(e[2][1] if type(e[2]) is tuple and e[2][0] == 'str' else '\n' if type(e[2]) is tuple and e[2][0] == 'func' or type(e[2]) is tuple and 'endl' in str(e[2]) else '?' for e in ev if e[0] == 'out' and 'cerr' not in str(e[1]))
        what = lambda: '%s; answer %s; %s' % (' '.join(names), short(ret), facts(st)[-300:])
        sol = [e for e in ev if e[0] == 'call' and e[1] == 'delete_solver']
        j(len(sol) == 1 and names[-1] == 'delete_solver' and names.count('create_solver') == 1, END, what)
        good = next((not b for k, b in st.facts.items() if strip(k)[0] == '==' and strip(k)[2] == 0 and isresult(strip(k)[1], 'parse_dimacs')), None)
        parse = [e for e in cs if e[1] == 'parse_dimacs']
        j(None if not parse else len(parse) == 1 and argument(parse[0][2][1]), ARG, lambda: short(parse[0][2][1]))
        lines = [x.strip() for x in out.replace('?', ' ').split('\n')]
        verd = [x for x in lines if x.startswith('s ')]
        if good is False:
            r0 = {evt(strip(ret), {strip(t): ST.index('ERROR') for t in walk(ret, lambda t: t[:2] == ('call', 'api::status'))})} if type(ret) is tuple and 'ERROR' in ST else {ret}
            j(None if None in r0 else not verd and 0 not in r0 and not any(n in ('solve', 'solve_limited', 'print_proof') for n in names), BADF, what)
            continue
        if good is None and parse and any(has(k, lambda t: t == ('call', 'api::status', 1)) for k in st.facts):
            j(None, BADF, 'the status tells')
            continue
        if good is None:
            j(False if parse else None, BADF, 'the answer of the reader is not looked at')
        # the status at the end
        sts = {t for k in st.facts for t in walk(k, lambda t: t[:2] == ('call', 'api::status'))}
        vals = []
        for i, s in enumerate(ST):
            if all(evt(strip(k), {strip(t): i for t in sts}) in (None, int(b)) for k, b in st.facts.items()):
                vals.append(s)
        for s in vals:
            want = [LINE[s]] if s in LINE else []
            j(verd == want, VER, lambda: 'status %s: %s' % (s, verd or 'no verdict'))
        lp = any(e[0] == 'L' for e in ev)
        n = len([x for x in names if x in ('solve', 'solve_limited')])
        if not lp:
            j(n == 1, ONE, what)
        for opt, call, RU in (('check_proof', 'check_proof', PRF), ('print_proof', 'print_proof', PRP)):
            o = option(st, opt)
            k = names.count(call)
            if k:
                j(o is True and vals == ['UNSAT'] and k == 1, RU, what)
            elif o is True and vals == ['UNSAT'] or o is None and 'UNSAT' in vals and not any('UNSAT' != v for v in vals):
                j(False, RU, what)
            if k and call == 'check_proof':
                res = next((b for q, b in st.facts.items() if strip(q)[0] == '==' and strip(q)[2] == 0 and isresult(strip(q)[1], 'check_proof')), None)
                err = [e for e in ev[max(i for i, e in enumerate(ev) if e[0] == 'call' and e[1] == 'check_proof'):] if e[0] == 'out' and type(e[2]) is tuple and e[2][0] == 'str' and e[2][1].strip() and not e[2][1].startswith('\033')]
                j(False if res is None else bool(err) or ret != 0 if res else not [e for e in err if 'invalid' in e[2][1]], PRF, what)
    blocked = 0
    for l in loops(r):
        for st, ev in l.iters:
            cs = [e for e in ev if e[0] == 'call']
            if not any(e[1] == 'solve' for e in cs):
                # the literals of the model
                ps = [e for e in ev if e[0] == 'push' or e[0] == 'call' and e[1] == 'push_literal' or e[0] == 'vmut' and e[2] in ('push_back', 'emplace_back')]
                for e in ps:
                    x = e[2] if e[0] == 'push' else e[-1][-1]
                    if has(x, lambda t: t == ('G', 'api::trail') or t[0] == 'E' and has(t, lambda y: y == ('G', 'api::trail'))):
                        blocked += 1
                        j(type(x) is tuple and x[:2] == ('call', '~lit') or None if has(x, lambda t: t[:2] == ('call', '~lit') or t[0] == '^') else False, BLK, lambda: 'literal %s' % short(x))
                continue
            sat = [b for k, b in st.facts.items() if strip(k)[0] == '==' and isresult(strip(k)[1], 'solve') and strip(k)[2] == ST.index('SAT')]
            j(bool(sat) and sat[0], ALLM, lambda: facts(st))
            a = [e for e in cs if e[1] in ('add_clause', 'finalize_clause')]
            j(len(a) == 1 if a else False, BLK, lambda: ' '.join(e[1] for e in cs))
            for e in a:
                if e[1] == 'add_clause' and len(e[2]) == 3:
                    sz = e[2][2]
                    sz = strip(sz) if type(sz) is tuple else sz
                    atoms = ({t for t in walk(sz, lambda t: t[:2] == ('call', 'std::size'))} or {t for t in walk(sz, lambda t: t[0] in ('n', 'lv', 'lvb', 'm'))}) if type(sz) is tuple else set()
                    off = next((True for k in (2, 5, 9) for o in (0, 1, 9, 1000) for v in [evt(sz, {t: k if t[0] == 'call' or len(atoms) == 1 and t in atoms else o for t in walk(sz, lambda t: t[0] in ('n', 'lv', 'lvb', 'm') or t[:2] == ('call', 'std::size'))})]
                                if len(atoms) == 1 and v not in (None, k)), False)
                    j(False if off else True if type(sz) is tuple and (sz[:2] == ('call', 'std::size') or sz[0] in ('n', 'lv', 'm', 'r', 'cast')) else None if type(sz) is tuple else False, BLK, lambda: 'size %s' % short(sz))
    for st, ret in r.outs:
        if any(e[0] == 'L' for e in st.cl[0]):
            sat = [b for k, b in st.facts.items() if strip(k)[0] == '==' and isresult(strip(k)[1], 'solve') and strip(k)[2] == ST.index('SAT')]
            if sat:
                j(not sat[0], ALLM, lambda: facts(st)[-200:])
    if not blocked:
        j(None, BLK, 'no path')
    j.flush(VER, BADF, END, PRF, PRP, ONE, BLK, ALLM, ARG)
