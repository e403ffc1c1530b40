"""P01: the resolution proof store and its checker."""
from rules.learn import *
from rules import learn

PREC = 'napsat::proof::resolution_proof'
PCL = 'napsat::proof::clause'
ANCH = ('input_clause', 'start_resolution_chain', 'link_resolution', 'finalize_resolution', 'cancel_resolution_chain', 'deactivate_clause', 'apply_resolution',
        'check_resolution_chain', 'check_tautology', 'remove_root_literals', 'root_assign', 'check_proof')


class PC(SC):
    keepfacts = True
    keeplocals = True

    class R:
        vecs = ()

    def __init__(self, R, **kw):
        super().__init__(R, **kw)
        self.anch = {PREC + '::' + a for a in ANCH if a not in self.follow}

    def setup(self, eng, st):
        pass

    def vecq(self, a):
        if type(a) is not tuple:
            return None
        if a[:1] == ('&',) and (a[1][0] == 'L' or a[1][0] == 'F' and a[1][2] in self.vecs) or a[:1] == ('p',):
            return a
        return None

    def vroot(self, a):
        return a[1][2] if a[0] == '&' and a[1][0] == 'F' else None

    def elt(self, eng, a):
        return SC.elt(self, eng, a) if a[0] == '&' and a[1][0] == 'F' else 'element'

    def inline(self, eng, fid, qn, depth):
        return qn.split('<')[0] not in self.anch

    def preloop(self, eng, st, fn, blk, ctx):
        old = {k for k, _ in st.cl[1] if k[0] == 'n'} | {('n', ('p', i, '')) for i, p in enumerate(fn.params) if 'vector' in p['t'] and not ctx}
        super().preloop(eng, st, fn, blk, ctx)
        locs = eng.loop_info(fn, blk, fn.loops()[blk])[1]
        new = dict(st.cl[1])
        for k in old | {k for k in new if k[0] == 'n'}:
            a = k[1]
            if type(a) is tuple and (k not in new or a[0] == 'p' or a[0] == '&' and a[1][0] == 'L' and a[1][1] in locs):
                new[k] = ('lv', 'n' + absint.S(ctx, blk), a)
        st.cl = (st.cl[0], tuple(new.items()))

    def vsize(self, st, a):
        n = self.kv(st, ('n', a))
        if n is not None:
            return n
        v = st.store.get(a[1]) if a[0] == '&' else None
        if type(v) is tuple and v[:2] == ('ctor', 'std::vector'):
            x = [y for y in v[2:] if not (type(y) is tuple and y[:2] == ('ctor', 'std::allocator'))]
            if not x:
                return 0
            if len(x) == 2 and type(x[1]) is tuple and x[1][0] == 'iter':
                b, lo = (x[0][1], x[0][2]) if type(x[0]) is tuple and x[0][0] == 'iter' else (x[0], 0)
                if b == x[1][1]:
                    return mk('-', x[1][2], lo)
        return ('call', 'std::size', a)

    def vcall(self, eng, st, c, a):
        if a[0] == 'p' and c.name in ('insert', 'erase', 'assign', 'swap'):
            args = tuple(eng.unloc(st, x) for x in c.args)
            site = absint.S(c.ctx, c.node)
            u = ('u', site, 'any')
            self.emit(st, 'vmut', a, c.name, args)
            self.setkv(st, ('n', a), ('u', site, 'n'))
            eng.write(st, ('E', a, u, 'element'), u, 'w' + site, notify=False)
            for l in [l for l in st.store if l[0] == 'E' and l[1] == a]:
                del st.store[l]
            return ('u', site, c.name)
        return super().vcall(eng, st, c, a)

    def call(self, eng, st, c):
        if not c.qn.startswith(('std::vector', 'napsat::indexed_vector', 'indexed_vector')):
            return self.call2(eng, st, c)
        return SC.call(self, eng, st, c)

    def call2(self, eng, st, c):
        q = c.qn.split('<')[0]
        if q in self.anch:
            args = tuple(eng.unloc(st, x) for x in c.args)
            self.emit(st, 'call', q[len(PREC) + 2:], args)
            return None
        if c.name in LIBMUT + ('find', 'binary_search', 'lower_bound') and c.fid not in eng.P.funcs:
            args = tuple(eng.unloc(st, x) for x in c.args)
            self.emit(st, 'lib', c.name, args)
        return None


class Store:
    def __init__(self, P):
        r = P.records.get(PREC)
        c = P.records.get(PCL)
        if r is None or c is None:
            raise AnalysisError('anchor vanished: ' + PREC)
        self.fields = {f['name']: f['t'] for f in r['fields']}
        self.vecs = tuple(PREC + '::' + n for n, t in self.fields.items() if 'vector<' in t) + tuple(PCL + '::' + f['name'] for f in c['fields'] if 'vector<' in f['t'])


class PRun(Run):
    def __init__(self, P, E, R, rep, name, j=0, func=None, **kw):
        fs = [func] if func else P.fn(PREC + '::' + name)
        if not fs:
            raise AnalysisError('anchor vanished: ' + PREC + '::' + name)
        self.R, self.f, self.C = R, fs[j], PC(R, **kw)
        self.name, self.mode = name, None
        self.eng, self.outs = analyse(P, E, self.C, self.f, setup=self.C.setup)
        if rep is not None:
            rep.engine(self.eng)
        self.where = self.f.where()


# ------------------------------------------------------------ vocabulary
def F(n):
    return ('F', THIS, PREC + '::' + n)


def V(n):
    return ('&', F(n))


def cl(i):
    return ('&', ('E', V('clauses'), i, ''))


def fld(i, n):
    return ('m', ('F', cl(i), PCL + '::' + n), 0)


def lit(i, k):
    return ('m', ('E', fld(i, 'lits'), k, ''), 0)


def chain(i):
    return ('&', ('F', cl(i), PCL + '::resolution_chain'))


def size(v):
    return ('call', 'std::size', v)


def matches(x):
    return ('m', ('E', V('clause_matches'), x, ''), 0)


def st1(t):
    """strip, with the template arguments of std::pair fields dropped and index + iterator in one order"""
    if t in ('#0', '#1'):
        return 'std::pair::' + ('first', 'second')[t == '#1']
    if type(t) is str:
        return 'std::pair::' + t.rsplit('::', 1)[1] if t.startswith('std::pair<') and '>::' in t else t
    if type(t) is not tuple or not t:
        return t
    if t[0] == 'iter' and len(t) == 3 and type(t[2]) is tuple and t[2][:1] == ('iter',):
        return st1(('iter', t[2][1], mk('+', t[2][2], t[1])))
    return tuple(st1(x) for x in t)


def N(t):
    return st1(strip(t))


def eqn2(a, b):
    return N(a) == N(b)


def link(i, k, n):
    return ('m', ('F', ('&', ('E', chain(i), k, '')), 'std::pair::' + n), 0)


def neg2(x):
    return N(('call', '~lit', x))


def neg_of(a, b):
    a, b = N(a), N(b)
    return a == ('call', '~lit', b) or b == ('call', '~lit', a)


def fact(st, a, b):
    """is a == b on this path?"""
    x, y, r = N(a), N(b), None
    for k, v in st.facts.items():
        if k[0] == '==' and len(k) == 3:
            p, q = N(k[1]), N(k[2])
            if (p, q) in ((x, y), (y, x)):
                r = v
    if r is None and x == y:
        return True
    return r


def vague(t):
    return has(t, lambda x: len(x) > 0 and x[0] in ('u', 'app', 'phi', 'r'))


def certain(st, *ts):
    """False: the mismatch is certain; None: something of unknown meaning is involved"""
    return None if any(vague(t) for t in ts) or any(vague(k) for k in st.facts) else False


def libcall(st):
    """a path that depends on a library algorithm over whole ranges"""
    return any(has(k, lambda t: t[0] == 'call' and str(t[1]).startswith('std::') and str(t[1]).split('::')[-1].split('@')[0].split('<')[0] not in ('size', 'find', 'binary_search', 'lower_bound', 'max', 'min', 'get')) for k in st.facts)


def edge(t):
    """vector and position of an iterator term"""
    t = N(t)
    return (t[1], t[2]) if type(t) is tuple and t[:1] == ('iter',) else (None, None)


def base(t):
    """array and index of an element read or written"""
    t = N(t)
    if type(t) is tuple and t[:1] == ('m',):
        t = t[1]
    if type(t) is tuple and t[:1] == ('fv',) and len(t) == 3 and type(t[1]) is tuple and t[1][:1] == ('lv',) and type(t[1][2]) is int:
        return ('&', ('L', t[1][2], t[1][1][1:].split(':')[0])), t[2]
    if type(t) is tuple and t[:1] == ('fv',) and len(t) == 3:
        return t[1], t[2]
    return (t[1], t[2]) if type(t) is tuple and t[:1] == ('E',) else (None, None)


RAWBASE = base


def pos(l, st, ix=lambda t: t):
    """loop variables of l that are positions"""
    return [lv for lv in lvars(l) if stepof(l, st, lv) is not None]


def nested(l, ls):
    """loops directly or indirectly inside l"""
    ks = {e[1:] for _, ev in l.iters for e in ev if e[0] == 'L'}
    return [x for x in ls if x.key in ks]


def seen_all(j, run, l, st, bound, rule, lo=0, what=''):
    """the loop, left on st, visited all positions up to the bound"""
    best = False
    for lv in lvars(l):
        n = N(bound)
        x = visits(l, st, lv, n, lo, ix=lambda t: N(t))
        if x:
            best = True
        elif x is None and best is False and stepof(l, (l.iters or [(None, 0)])[0][0], lv) is None if l.iters else False:
            pass
    if not best:
        xs = [visits(l, st, lv, N(bound), lo, ix=lambda t: N(t)) for lv in lvars(l)]
        best = None if None in xs and False not in xs or not xs else False
    j(best, rule, what or short(bound))


def left(l, outs):
    """exits behind the loop"""
    return [(st, r) for st, r in outs if any(e[0] == 'L' and e[1:] == l.key for e in st.cl[0])]


def check(P, E, rep):
    R = Store(P)
    stored(P, E, R, rep)
    derived(P, E, R, rep)
    links(P, E, R, rep)
    owners(P, E, R, rep)
    chains(P, E, R, rep)
    whole(P, E, R, rep)
    rootlits(P, E, R, rep)
    resolve(P, E, R, rep)


# ------------------------------------------------------------ storing clauses
def dedup(j, l, rule):
    """each iteration drops an element equal to its predecessor and moves any other to the next free place; returns the counter of kept elements"""
    keep = set()
    for st, ev in l.iters:
        cmpd = None
        for k, v in st.facts.items():
            if k[0] == '==' and len(k) == 3:
                (a, x), (b, y) = base(k[1]), base(k[2])
                if a is not None and b is not None and a == b and (has((x, y), l.own)):
                    cmpd = (a, x, y, v)
        ws = [(base(e[1]), base(e[2])) for e in ev if e[0] == 'w' and base(e[1])[0] is not None]
        if cmpd is None:
            j(None if certain(st, *[e for e in ev]) is None or not ws else False, rule, 'nothing compared')
            continue
        a, x, y, same_ = cmpd
        lv = [v for v in lvars(l)]
        i = [v for v in lv if {stepof(l, s, v) for s, _ in l.iters} == {1}]
        k = [v for v in lv if v not in i and {stepof(l, s, v) for s, _ in l.iters} == {0, 1}]
        if len(i) != 1 or len(k) != 1:
            j(None, rule, 'counters %s %s' % (i, k))
            continue
        i, k = N(i[0]), k[0]
        kk = N(k)
        keep.add(k)
        idx = {x, y}
        good = False
        for other in ({i: 7, kk: 7}, {i: 7, kk: 4}):
            vals = {evt(t, other) for t in idx}
            good = good or vals == {7, 6} or vals == {7, other[kk] - 1} and vals != {7}
        j(good, rule, 'compares %s and %s' % (short(x), short(y)))
        stp = stepof(l, st, k)
        if same_:
            j(stp == 0 and not ws, rule, 'an element equal to the one before is kept')
        else:
            j(stp == 1, rule, 'an element different from the one before is dropped')
            ok = len(ws) == 1 and ws[0][0] == (a, kk) and ws[0][1] == (a, i)
            if not ok and not ws and fact(st, i, kk) is True:
                ok = True
            j(ok, rule, 'an element is not moved to the next free place: %s' % [tuple(short(z) for z in w) for w in ws])
    for v in keep:
        for x in l.init(v):
            j(True if x == 1 else None if type(x) is not int else False, rule, 'kept elements counted from %s' % short(x))
    return keep


def stored(P, E, R, rep):
    with rep.guard('storing a clause'):
        r = PRun(P, E, R, rep, 'input_clause')
        j = J(rep, 'storing a clause', r.where)
        ls = loops(r)
        A0, A1, A2 = r.p(0), r.p(1), r.p(2)
        n = N(size(V('clauses')))
        for st, _ in r.outs:
            ev = st.cl[0]
            ps = [e for e in ev if e[0] == 'push' and N(e[1]) == N(V('clauses'))]
            other = [e for e in ev if e[0] in ('pop', 'vmut', 'clear', 'resize') and N(e[1]) == N(V('clauses'))]
            j(len(ps) == 1 and not other or (None if other and all(e[0] in ('vmut', 'resize') for e in other) and not ps else False), 'one clause is stored', '%d' % len(ps))
            ms = [(base(e[1])[1], N(e[2])) for e in ev if e[0] == 'w' and base(e[1])[0] == N(V('clause_matches'))]
            bad = [m for m in ms if m != (N(A0), n)]
            j(bool(ms) and not bad or (certain(st, *[x for m in ms for x in m]) if ms else False), 'the identifier leads to the stored clause', ', '.join('%s: %s' % (short(a), short(b)) for a, b in ms))
            # room for the identifier
            room = [e for e in ev if e[0] in ('resize', 'vmut', 'push') and N(e[1]) == N(V('clause_matches'))]
            small = holdsx(st, ('<', A0, size(V('clause_matches'))))
            if small is not True:
                j(bool(room) or (False if small is False else None), 'identifiers never seen have no clause', 'no room made for the identifier')
            for e in room:
                if e[0] == 'resize':
                    c = [evt(N(e[2]), {N(A0): x}) for x in (0, 5)]
                    j(None if None in c else c[0] > 0 and c[1] > 5, 'identifiers never seen have no clause', 'room for %s' % short(e[2]))
                    v = e[3]
                    j(v == UNDEFC or (False if v is None or type(v) is int else None), 'identifiers never seen have no clause', 'filled with %s' % short(v))
            # the empty clause
            em = [N(e[2]) for e in ev if e[0] == 'w' and N(e[1]) == N(F('empty_clause_id'))]
            z = fact(st, A2, 0)
            if z is True:
                j(bool(em) and em[-1] in (n, N(matches(A0))), 'a clause without literals is the empty clause', '%s' % [short(x) for x in em])
            elif z is False:
                j(not em, 'a clause without literals is the empty clause', 'a clause with literals is recorded as empty')
            elif em:
                j(None if any(has(f, lambda t: N(t) == N(A2)) for f in st.facts) else False, 'a clause without literals is the empty clause', 'recorded without looking at the size')
            if z is True:
                continue
            # the literals
            arr = N(fld(n, 'lits')[1])
            w = [e for e in ev if e[0] == 'w' and N(e[1]) == arr]
            news = [e for e in ev if e[0] == 'new']
            if len(w) != 1 or len(news) != 1:
                j(None if z is None or len(w) > 1 else certain(st) if news else False, 'the literals given are stored', 'array %s' % [short(e[2]) for e in w])
                continue
            buf_ = N(w[0][2])
            al = news[0][2][0] if news[0][2] else None
            b = [evt(N(al), {N(A2): x}) for x in (1, 6)]
            j(None if None in b else b[0] >= 1 and b[1] >= 6, 'the literals given are stored', 'room for %s' % short(al))
            cps = [e for e in ev if e[0] == 'lib' and e[1] in ('memcpy', 'copy', 'copy_n')]
            ok = None
            for e in cps:
                a = [N(x) for x in e[2]]
                if e[1] == 'memcpy' and len(a) == 3:
                    ok = a[0] == buf_ and a[1] == N(A1) and [evt(a[2], {N(A2): x}) for x in (1, 3)] == [4, 12]
                elif e[1] == 'copy' and len(a) == 3:
                    ok = a[2] in (buf_, ('iter', buf_, 0)) and a[0] in (N(A1), ('iter', N(A1), 0)) and a[1] in (('iter', N(A1), N(A2)), N(mk('+', A1, A2)))
                elif e[1] == 'copy_n' and len(a) == 3:
                    ok = a[2] in (buf_, ('iter', buf_, 0)) and a[0] == N(A1) and a[1] == N(A2)
                if ok is False:
                    ok = certain(st, *a)
                j(ok, 'the literals given are stored', '%s %s' % (e[1], [short(x) for x in a]))
            if not cps:
                cl_ = [l for l in ls for _, le in l.iters if any(e[0] == 'w' and base(e[2])[0] == N(A1) for e in le)]
                for l in cl_:
                    for s, le in l.iters:
                        for e in le:
                            if e[0] == 'w' and base(e[2])[0] == N(A1):
                                j(base(e[1])[1] == base(e[2])[1], 'the literals given are stored', '%s := %s' % (short(e[1]), short(e[2])))
                    if l in [x for x in cl_ if any(e[0] == 'L' and e[1:] == x.key for e in ev)]:
                        seen_all(j, r, l, st, A2, 'the literals given are stored')
                if not cl_:
                    j(certain(st) if not any(e[0] in ('call', 'lib') for e in ev if e[0] != 'lib' or e[1] not in ('sort',)) else None, 'the literals given are stored', 'nothing copied')
            bufs = {buf_, N(fld(n, 'lits'))} | set(walk(N(tuple(ev)), lambda t: t[0] == 'fv' and len(t) == 3 and t[2] == PCL + '::lits' and type(t[1]) is tuple and t[1][0] == 'obj'))
            so = [i for i, e in enumerate(ev) if e[0] == 'lib' and e[1] in ('sort', 'stable_sort')]
            cpi = [i for i, e in enumerate(ev) if e in cps]
            for i in so:
                a = [N(x) for x in ev[i][2]]
                j(len(a) == 2 and any(a[0] in (b, ('iter', b, 0)) and a[1] == ('iter', b, N(A2)) for b in bufs) or (None if len(a) > 2 else certain(st, *a)), 'stored literals are sorted', '%s' % [short(x) for x in a])
                j(all(c < i for c in cpi), 'stored literals are sorted', 'sorted before they are there')
            if not so:
                j(None if any(e[0] == 'call' for e in ev) or len([1 for e in ev if e[0] == 'L']) > 1 else False, 'stored literals are sorted', 'never sorted')
            # duplicates
            dl = [l for l in ls if any(e[0] == 'L' and e[1:] == l.key for e in ev) and any(k[0] == '==' and base(k[1])[0] is not None and base(k[1])[0] == base(k[2])[0] for s, _ in l.iters for k in s.facts if len(k) == 3 and has(k, l.own))]
            un = [e for e in ev if e[0] == 'lib' and e[1] == 'unique']
            sz = [e for e in ev if e[0] == 'w' and N(e[1]) == N(fld(n, 'size')[1])]
            fin = N(sz[-1][2]) if sz else None
            if len(dl) == 1:
                keep = dedup(j, dl[0], 'stored literals are distinct')
                seen_all(j, r, dl[0], st, A2, 'stored literals are distinct', lo=1)
                mk_ = [i for i, e in enumerate(ev) if e[0] == 'L' and e[1:] == dl[0].key]
                j(all(i < mk_[0] for i in so), 'stored literals are distinct', 'sorted after duplicates were removed')
                for k in keep:
                    c = [evmin(fin, {N(k): x, N(A2): y}) for x, y in ((1, 1), (2, 5), (4, 4))]
                    j(c == [1, 2, 4] or (False if None not in c else certain(st, fin)), 'the stored size is the number of literals kept', short(fin))
            elif un:
                j(None, 'stored literals are distinct', 'unique')
            else:
                j(None if dl or any(e[0] == 'call' for e in ev) else False, 'stored literals are distinct', 'duplicates are not removed')
        j.flush('one clause is stored', 'the identifier leads to the stored clause', 'the literals given are stored')


def evmin(t, env):
    t = N(t)
    if type(t) is tuple and t[:1] in (('min',), ('max',)):
        xs = [evmin(x, env) for x in t[1:]]
        return None if None in xs else (min if t[0] == 'min' else max)(xs)
    return evt(t, env)


def derived(P, E, R, rep):
    with rep.guard('storing a derived clause'):
        r = PRun(P, E, R, rep, 'finalize_resolution')
        j = J(rep, 'storing a derived clause', r.where)
        full = PRun(P, E, R, rep, 'finalize_resolution', follow=('input_clause',))
        ls = loops(r)
        cur = N(V('current_resolution_chain'))
        n = N(size(V('clauses')))
        for st, _ in r.outs:
            ev = st.cl[0]
            ic = [(i, e) for i, e in enumerate(ev) if e[0] == 'call' and e[1] == 'input_clause']
            j(len(ic) == 1 and [N(x) for x in ic[0][1][2]] == [N(r.p(i)) for i in range(3)], 'the clause is stored under the identifier given', '%s' % [[short(x) for x in e[2]] for _, e in ic])
            cs = [i for i, e in enumerate(ev) if e[0] == 'clear' and N(e[1]) == cur or e[0] == 'resize' and N(e[1]) == cur and e[2] == 0]
            sw = [i for i, e in enumerate(ev) if e[0] in ('vmut', 'lib') and e[-2] in ('swap',) or e[0] == 'lib' and e[1] in ('swap', 'move')]
            j(bool(cs) or (None if sw else False), 'the next derivation starts empty', 'the chain is kept')
            cp = [l for l in ls if any(e[0] == 'push' and 'resolution_chain' in str(N(e[1])[1][2] if N(e[1])[0] == '&' and N(e[1])[1][0] == 'F' else '') for _, le in l.iters for e in le)]
            for l in cp:
                for s, le in l.iters:
                    p = [e for e in le if e[0] == 'push']
                    lv = [v for v in lvars(l) if stepof(l, s, v) == 1]
                    want = [(N(('m', ('F', ('&', ('E', cur, v, '')), 'std::pair::first'), 0)), N(('m', ('F', ('&', ('E', cur, v, '')), 'std::pair::second'), 0))) for v in lv]
                    got = [parts(e[2]) for e in p]
                    ok = len(p) == 1 and (got[0] in want or N(p[0][2]) in [N(('m', ('E', cur, v, ''), 0)) for v in lv])
                    j(ok or certain(s, *[e[2] for e in p]), 'every link is stored, in order', '%s' % [short(e[2]) for e in p])
                if any(e[0] == 'L' and e[1:] == l.key for e in ev):
                    seen_all(j, r, l, st, size(cur), 'every link is stored, in order')
                    mk_ = max(i for i, e in enumerate(ev) if e[0] == 'L' and e[1:] == l.key)
                    j(all(i > mk_ for i in cs), 'every link is stored, in order', 'cleared before it is stored')
                else:
                    j(None, 'every link is stored, in order', 'a path goes past the copy')
            if not cp:
                ws = [e for e in ev if e[0] == 'w' and 'clause::resolution_chain' in str(e[1][2] if e[1][0] == 'F' else '')]
                src = any(has(N(e[2]), lambda t: t == cur or t == cur[1]) for e in ws)
                j(True if ws and src else None if ws or sw or any(e[0] in ('lib', 'vmut') for e in ev) else False, 'every link is stored, in order', 'the chain is not stored')
        for st, _ in full.outs:
            ev = st.cl[0]
            ds = [e for e in ev if e[0] == 'w' and e[1][0] == 'F' and e[1][2] == PCL + '::derived']
            j(any(N(e[1]) == N(fld(n, 'derived')[1]) and e[2] == 1 for e in ds) or (None if ds and any(vague(e) for e in ds) else False), 'the clause is known to be derived', '%s' % [short(e[1]) for e in ds])
            # the chain belongs to the clause stored by this call
            for e in ev:
                if e[0] == 'w' and e[1][0] == 'F' and str(e[1][2]) == PCL + '::resolution_chain':
                    j(N(e[1]) == N(chain(n)[1]) or (certain(st, e[1])), 'the chain belongs to the clause stored', short(e[1]))
        for l in loops(full):
            for s, le in l.iters:
                for e in le:
                    if e[0] == 'push' and N(e[1])[0] == '&' and N(e[1])[1][0] == 'F' and N(e[1])[1][2] == PCL + '::resolution_chain':
                        j(N(e[1]) == N(chain(n)) or certain(s, e[1]), 'the chain belongs to the clause stored', short(e[1]))
        j.flush('the clause is stored under the identifier given', 'every link is stored, in order', 'the clause is known to be derived')


def parts(t):
    """components of a pair value"""
    t = N(t)
    if type(t) is not tuple:
        return None
    if t[0] == 'ctor' and str(t[1]).startswith('std::pair'):
        return tuple(t[2:])
    if t[0] == 'call' and str(t[1]).startswith('std::make_pair'):
        return tuple(t[2:])
    if t[0] == 'obj':
        return tuple(t[2:])
    return None


def links(P, E, R, rep):
    cur = N(V('current_resolution_chain'))
    with rep.guard('linking'):
        r = PRun(P, E, R, rep, 'link_resolution')
        j = J(rep, 'linking', r.where)
        for st, _ in r.outs:
            ev = st.cl[0]
            p = [e for e in ev if e[0] in ('push', 'pop', 'vmut', 'clear', 'resize') and N(e[1]) == cur]
            x = parts(p[0][2]) if len(p) == 1 and p[0][0] == 'push' else None
            want = (N(r.p(0)), N(matches(r.p(1))))
            ok = x == want
            if not ok and len(p) == 1 and p[0][0] == 'push' and type(N(p[0][2])) is tuple and N(p[0][2])[0] in ('lv', 'm', 'u', 'obj'):
                ok = None if has(N(p[0][2]), lambda t: t == want[0]) and has(N(p[0][2]), lambda t: t == want[1]) else certain(st, p[0][2])
            elif not ok:
                ok = certain(st, *[e[2] for e in p if len(e) > 2])
            j(ok, 'a link is the pivot with the clause the identifier leads to now', '%s' % [short(e[2]) if len(e) > 2 else e[0] for e in p])
        j.flush('a link is the pivot with the clause the identifier leads to now')
    with rep.guard('abandoning'):
        r = PRun(P, E, R, rep, 'cancel_resolution_chain')
        j = J(rep, 'abandoning', r.where)
        for st, _ in r.outs:
            j(any(e[0] == 'clear' and N(e[1]) == cur or e[0] == 'resize' and N(e[1]) == cur and e[2] == 0 for e in st.cl[0]) or (None if any(e[0] in ('vmut', 'lib', 'w', 'L') for e in st.cl[0]) else False),
              'an abandoned derivation leaves no links', '')
        j.flush('an abandoned derivation leaves no links')
    with rep.guard('deactivating'):
        r = PRun(P, E, R, rep, 'deactivate_clause')
        j = J(rep, 'deactivating', r.where)
        for st, _ in r.outs:
            ms = [(base(e[1])[1], N(e[2])) for e in st.cl[0] if e[0] == 'w' and base(e[1])[0] == N(V('clause_matches'))]
            j(ms == [(N(r.p(0)), UNDEFC)] or (False if not ms else certain(st, ms)), 'the identifier leads to no clause', '%s' % [(short(a), short(b)) for a, b in ms])
        j.flush('the identifier leads to no clause')
    with rep.guard('root literals'):
        r = PRun(P, E, R, rep, 'root_assign')
        j = J(rep, 'root literals', r.where)
        for st, _ in r.outs:
            for v, a in (('root_lit', 0), ('root_reason', 1)):
                p = [e for e in st.cl[0] if e[0] in ('push', 'pop', 'vmut', 'clear', 'resize') and N(e[1]) == N(V(v))]
                j(len(p) == 1 and p[0][0] == 'push' and N(p[0][2]) == N(r.p(a)) or certain(st, *[e[2] for e in p if len(e) > 2]), 'the literal is recorded with its reason', '%s: %s' % (v, [e[0] for e in p]))
        j.flush('the literal is recorded with its reason')


OWN = {'clauses': ('input_clause',), 'clause_matches': ('input_clause', 'deactivate_clause'), 'current_resolution_chain': ('link_resolution', 'finalize_resolution', 'cancel_resolution_chain', 'start_resolution_chain'),
       'empty_clause_id': ('input_clause',), 'root_lit': ('root_assign',), 'root_reason': ('root_assign',)}
OWNC = {'lits': ('input_clause',), 'size': ('input_clause',), 'derived': ('finalize_resolution',), 'resolution_chain': ('finalize_resolution',)}


def owners(P, E, R, rep):
    """who changes what is stored"""
    with rep.guard('stored derivations'):
        anch = {}
        for a in ANCH:
            for f in P.fn(PREC + '::' + a):
                anch[f.fid] = a
        pub = dict(anch)
        for fid, f in P.funcs.items():
            if f.qn.startswith(PREC + '::') and fid not in pub and not getattr(f, 'ctor', False) and '~' not in f.qn and f.qn.split('::')[-1] != 'resolution_proof':
                pub[fid] = f.qn.split('::')[-1]
        for q, own in [(PREC + '::' + k, v) for k, v in OWN.items()] + [(PCL + '::' + k, v) for k, v in OWNC.items()]:
            n = 0
            bad = []
            for fid, a in pub.items():
                if a in own:
                    continue
                # through helpers that are not operations of their own
                seen, todo = set(), [fid]
                while todo:
                    x = todo.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    n += 1
                    if ('F', q) in E.direct.get(x, ()):
                        callers = {anch.get(c) for c in E.callers(x)} if x not in anch else set()
                        if x in anch or x == fid and not E.callers(x):
                            bad.append((a, P.funcs[x].where()))
                        elif x != fid or any(c is None for c in callers):
                            bad.append((a, P.funcs[x].where()) if x != fid and fid in anch else None)
                    todo.extend(c for c in E.calls.get(x, ()) if c in P.funcs and c not in anch)
            bad = [b for b in bad if b]
            rep.add('stored derivations: %s is changed only by %s' % (q.split('::')[-1], ' and '.join(own)), bad[0][1] if bad else 'src/proof/proof.cpp', BAD if bad else OK, 'changed by %s' % bad[0][0] if bad else '')


# ------------------------------------------------------------ the checker
def chains(P, E, R, rep):
    with rep.guard('checking a derivation'):
        alias = set()

        def base(t, base_=RAWBASE):
            a, k = base_(t)
            if type(a) is tuple and a[0] == '&' and a[1][0] == 'L' and any(N(lv)[2] == a[1][1] and N(lv)[1][1:].split(':')[0] == a[1][2] for lv in alias if type(lv[2]) is int):
                a = acc
            return a, k

        r = PRun(P, E, R, rep, 'check_resolution_chain')
        j = J(rep, 'checking a derivation', r.where)
        ls = loops(r)
        ID = r.p(0)
        und = certain

        def inserted(ev):
            return [(N(e[1]), N(e[3][-1]) if e[0] == 'vmut' else N(e[2]), e) for e in ev if e[0] == 'push' or e[0] == 'vmut' and e[2] == 'insert']

        def of_link(t):
            """(clause index, position) when t is a literal of a stored clause other than the checked one"""
            a, k = base(t)
            if a is None or type(a) is not tuple or a[:1] != ('m',) or a[1][:1] != ('F',) or a[1][2] != PCL + '::lits':
                return None
            c = a[1][1]
            return (c[1][2], k) if c[:1] == ('&',) and c[1][:1] == ('E',) and c[1][1] == N(V('clauses')) else None

        inner = [l for l in ls if any(of_link(v) for _, ev in l.iters for _, v, _ in inserted(ev))]
        outer = [l for l in ls if any(e[0] == 'L' and e[1:] in [x.key for x in inner] for _, ev in l.iters for e in ev)]
        if len(inner) != 1 or len(outer) != 1:
            j(None, 'every premise is merged', '%d %d' % (len(inner), len(outer)))
            j.flush()
            return
        inner, outer = inner[0], outer[0]
        acc = {v for _, ev in inner.iters for v, x, _ in inserted(ev) if of_link(x)}
        if len(acc) != 1:
            j(None, 'every premise is merged', 'several accumulators')
            j.flush()
            return
        acc = acc.pop()
        # the accumulator as a helper sees it through a reference
        more = True
        while more:
            more = [lv for l in ls for lv in lvars(l) if lv not in alias and l.init(lv) and all(x in alias or acc[0] == '&' and N(x) == N(('m', acc[1], 0)) for x in l.init(lv))]
            alias.update(more)

        lo = [v for v in lvars(outer) if any(eqn2(x, ('iter', chain(ID), 0)) for x in outer.init(v)) or outer.init(v) == {0} and {stepof(outer, s, v) for s, _ in outer.iters} == {1}]
        lo = [v for v in lo if {stepof(outer, s, v) for s, _ in outer.iters} == {1}]
        if len(lo) != 1:
            first = [v for v in lvars(outer) if {stepof(outer, s, v) for s, _ in outer.iters} == {1}]
            if len(first) == 1 and all(type(evt(N(x), {})) is int and evt(N(x), {}) > 0 for x in outer.init(first[0])):
                j(None, 'every premise is merged', 'the first link is treated apart')
            else:
                j(None, 'every premise is merged', 'position in the chain not recognised')
            j.flush()
            return
        lo = lo[0]
        piv, prem = N(link(ID, lo, 'first')), N(link(ID, lo, 'second'))
        li = None
        for s, ev in inner.iters:
            for _, v, _ in inserted(ev):
                c = of_link(v)
                if c:
                    j(c[0] == prem or certain(s, v), 'every premise is merged', 'literals of %s' % short(c[0]))
                    for x in walk(c[1], lambda t: t in [N(q) for q in lvars(inner)]):
                        li = x
        if li is None:
            j(None, 'every premise is merged', 'position in the premise not recognised')
            j.flush()
            return
        L = N(lit(prem, li))
        flags = [v for v in lvars(inner) if v not in alias and N(v) != li and v[2] != (acc[1][1] if acc[0] == '&' and acc[1][0] == 'L' else None) and None not in inner.init(v)]
        for s, ev in inner.iters:
            ins = [(v, x) for v, x, _ in inserted(ev) if v == acc]
            isneg = None
            for k, v in s.facts.items():
                if k[0] == '==' and len(k) == 3 and L in (N(k[1]), N(k[2])):
                    o = N(k[2]) if N(k[1]) == L else N(k[1])
                    if neg_of(o, piv):
                        isneg = v
            pz = fact(s, piv, 0)
            there = any(k[0] == '==' and len(k) == 3 and v and L in (N(k[1]), N(k[2])) and (base(k[1])[0] == acc or base(k[2])[0] == acc) for k, v in s.facts.items())
            for v, x in ins:
                j(x == L or (certain(s, x)), 'only literals of the premise are merged', short(x))
            if not ins:
                if isneg is True and pz is False or there:
                    j(True, 'every other literal of the premise is merged')
                elif isneg is True and pz is None:
                    j(None, 'every other literal of the premise is merged', 'the negated pivot, or the negation of no pivot')
                else:
                    j(certain(s), 'every other literal of the premise is merged', 'a literal is skipped that is neither the negated pivot nor present')
            elif isneg is True and pz is False:
                j(False, 'the negated pivot is resolved away', 'it stays')
            elif isneg is None and pz is not True:
                j(None if pz is None else certain(s), 'the negated pivot is resolved away', 'never looked for')
            else:
                j(True, 'the negated pivot is resolved away')
            for fl in flags:
                nx = N(inner.next(s, fl))
                if nx != N(fl) and type(nx) is int and nx:
                    j(isneg is True or certain(s), 'the negated pivot must occur in the premise', 'noted without having met it')
        # insertion keeps the literals sorted
        for s, ev in inner.iters:
            for v, x, e in inserted(ev):
                if v != acc or e[0] != 'vmut':
                    continue
                b, p = edge(e[3][0])
                srch = [l for l in nested(inner, ls) if any(N(q) == p for q in lvars(l))]
                j(True if srch else False if type(p) is int or p == N(size(acc)) or type(p) is tuple and p[:2] == ('lv', 'n') else None, 'literals are kept sorted', 'inserted at %s' % short(p))
        for l in ls:
            search(j, l, acc, base)
        # one link
        for s, ev in outer.iters:
            rm = [(i, e) for i, e in enumerate(ev) if e[0] == 'vmut' and N(e[1]) == acc and e[2] == 'erase' or e[0] == 'pop' and N(e[1]) == acc]
            oth = [e for e in ev if e[0] in ('clear', 'resize', 'vmut') and N(e[1]) == acc and not (e[0] == 'vmut' and e[2] in ('insert', 'erase'))]
            j(not oth or None, 'what was derived so far is kept', '%s' % [e[0] for e in oth])
            pz = fact(s, piv, 0)
            mi = [i for i, e in enumerate(ev) if e[0] == 'L' and e[1:] == inner.key]
            if pz is True:
                j(not rm or certain(s), 'a premise without pivot removes nothing', '')
            else:
                at = []
                for _, e in rm:
                    b, p = edge(e[3][0]) if e[0] == 'vmut' else (None, None)
                    hit = [v for k, v in s.facts.items() if k[0] == '==' and len(k) == 3 and piv in (N(k[1]), N(k[2])) and (base(k[1]) == (acc, p) or base(k[2]) == (acc, p))]
                    at.append(hit[-1] if hit else None)
                if len(at) == 1 and at[0] is True:
                    j(True, 'the pivot is removed from what was derived')
                    j(all(i < mi[0] for i, _ in rm) if mi else None, 'the pivot is removed before the premise is merged', 'removed afterwards')
                elif not rm:
                    j(certain(s) if pz is False or not any(has(k, lambda t: N(t) == N(lo)) for k in s.facts if k[0] == '==' and 0 in k) else None, 'the pivot is removed from what was derived', 'nothing removed')
                else:
                    lib = any(has(e, lambda t: t[0] == 'call' and str(t[1]).split('::')[-1].split('@')[0] in ('find', 'lower_bound')) for _, e in rm)
                    j(None if lib or certain(s, *[e for _, e in rm]) is None else False, 'the pivot is removed from what was derived', 'what is removed need not be the pivot')
                if pz is False:
                    fs = [v for k, v in s.facts.items() if k[0] == '==' and 0 in k[1:] and any(N(x) == N(q) for x in k[1:] for q in flags)]
                    other = [k for k in s.facts if any(has(k, lambda t: N(t) == N(q)) for q in flags)]
                    lib = any(e[0] == 'lib' for e in ev)
                    if fs:
                        j(not fs[-1], 'the negated pivot must occur in the premise', 'the next link is taken although it does not')
                    else:
                        j(None if other or lib or certain(s) is None else False, 'the negated pivot must occur in the premise', 'not required')
            if mi:
                seen_all(j, r, inner, s, fld(prem, 'size'), 'every literal of the premise is looked at')
            else:
                j(certain(s), 'every premise is merged', 'a link is skipped')
        for fl in flags:
            for x in inner.init(fl):
                x = N(x)
                ok = True if x == 0 or x == N(mk('==', piv, 0)) or type(x) is tuple and x[0] == '==' and 0 in x[1:] and piv in x[1:] else None if type(x) is not int else 'one'
                if ok == 'one':
                    ok = None
                j(ok, 'the negated pivot must occur in the premise', 'noted at the start: %s' % short(x))
        # verdicts
        cmpl = [l for l in ls if l.iters and all(any(k[0] == '==' and len(k) == 3 and v and {base(k[1])[0], base(k[2])[0]} == {acc, N(fld(ID, 'lits'))} for k, v in s.facts.items()) for s, _ in l.iters)]
        for l in cmpl:
            for s, _ in l.iters:
                for k, v in s.facts.items():
                    if k[0] == '==' and len(k) == 3 and v and {base(k[1])[0], base(k[2])[0]} == {acc, N(fld(ID, 'lits'))}:
                        j(base(k[1])[1] == base(k[2])[1] or certain(s, k), 'a derivation is accepted only if it yields the clause', 'compares %s' % short(k))
        for st, ret in r.outs:
            ev = st.cl[0]
            empty = fact(st, size(chain(ID)), 0)
            der = fact(st, fld(ID, 'derived'), 0)
            done = any(e[0] == 'L' and e[1:] == outer.key for e in ev)
            if type(ret) is not int:
                x = N(ret)
                if empty is True and not done:
                    j(True if x == N(mk('==', fld(ID, 'derived'), 0)) or type(x) is tuple and x[0] in ('==', '!') and has(x, lambda t: t == N(fld(ID, 'derived'))) and (x[0] == '!' or 0 in x[1:])
                      else False if x == N(fld(ID, 'derived')) else None, 'a clause without derivation must have been given', short(ret))
                else:
                    j(None, 'a derivation is accepted only if it yields the clause', short(ret))
                continue
            if ret:
                if not done:
                    if empty is True:
                        j(der is True or (None if der is None and certain(st) is None else False), 'a clause without derivation must have been given', 'accepted although it was derived')
                    else:
                        j(certain(st), 'every link is followed', 'accepted before the links were followed')
                    continue
                seen_all(j, r, outer, st, size(chain(ID)), 'every link is followed')
                sz = None
                for k, v in st.facts.items():
                    if k[0] == '==' and len(k) == 3 and N(fld(ID, 'size')) in (N(k[1]), N(k[2])):
                        o = N(k[2]) if N(k[1]) == N(fld(ID, 'size')) else N(k[1])
                        if o == N(size(acc)) or type(o) is tuple and o[:1] == ('lv',) and str(o[1]).startswith('n'):
                            sz = v
                lib = any(e[0] == 'lib' for e in ev) or libcall(st) or certain(st) is None
                j(sz is True or (None if lib else False), 'a derivation is accepted only if it yields the clause', 'the sizes are not compared')
                cm = [l for l in cmpl if any(e[0] == 'L' and e[1:] == l.key for e in ev)]
                if cm:
                    for l in cm:
                        ok = [visits(l, st, lv, N(b), 0, ix=N) for lv in lvars(l) for b in (fld(ID, 'size'), size(acc))]
                        j(True if True in ok else False if False in ok and None not in ok else None if None in ok and False not in ok else False, 'a derivation is accepted only if it yields the clause', 'not all literals are compared')
                else:
                    j(None if lib else False, 'a derivation is accepted only if it yields the clause', 'the literals are not compared')
            else:
                why = empty is True and der is False
                for k, v in st.facts.items():
                    if len(k) != 3:
                        continue
                    a, b = N(k[1]), N(k[2])
                    if k[0] == '==' and not v and N(fld(ID, 'size')) in (a, b):
                        why = True
                    if k[0] == '==' and not v and {base(a)[0], base(b)[0]} == {acc, N(fld(ID, 'lits'))}:
                        why = True
                    if k[0] == '==' and v and 0 in (a, b) and any(N(q) in (a, b) for q in flags):
                        why = True
                    if k[0] == '==' and v and any(x == N(size(acc)) or type(x) is tuple and x[:1] == ('lv',) and str(x[1]).startswith('n') and N(x[2]) in (acc, acc[1][-1]) for x in (a, b)):
                        why = True            # searched up to the end
                    if k[0] == '<' and not v and any(N(q) == a for l in ls if l not in (inner, outer) and l not in cmpl for q in lvars(l)) and any(N(q) == b for l in ls for q in lvars(l)):
                        why = True
                    if k[0] == '==' and has(k, lambda t: t[0] == 'call' and str(t[1]).split('::')[-1].split('@')[0] in ('find', 'lower_bound', 'binary_search')):
                        why = True
                j(why or certain(st), 'a derivation is rejected only for a reason', facts(st)[-200:])
        # starting empty
        for st in outer.entries:
            ev = st.cl[0]
            if acc[0] == '&' and acc[1][0] == 'L':
                j(True, 'each check starts from nothing')
            else:
                c = [e for e in ev if N(e[1]) == acc and e[0] in ('clear', 'resize', 'vmut', 'push')] if ev else []
                j(bool(c) and (c[-1][0] == 'clear' or c[-1][0] == 'resize' and c[-1][2] == 0) or (None if c or any(e[0] == 'w' for e in ev) else False), 'each check starts from nothing', 'earlier literals are kept')
        j.flush('every premise is merged', 'every other literal of the premise is merged', 'the pivot is removed from what was derived', 'a derivation is accepted only if it yields the clause', 'every link is followed')


def search(j, l, acc, base):
    """halving an interval of sorted literals"""
    for s, ev in l.iters:
        for k, v in s.facts.items():
            if k[0] != '<' or len(k) != 3:
                continue
            a, b = base(k[1]), base(k[2])
            if a[0] == acc and b[0] != acc:
                mid, below = a[1], v
                strict = not v                # what is not below stays in
            elif b[0] == acc and a[0] != acc:
                mid, below = b[1], not v
                strict = None
            else:
                continue
            lvs = [q for q in lvars(l) if has(mid, lambda t: t == N(q))]
            bnd = [kk for kk, vv in s.facts.items() if kk[0] == '<' and vv and len(kk) == 3 and {N(kk[1]), N(kk[2])} == {N(q) for q in lvs}]
            if len(lvs) != 2 or not bnd:
                continue
            lo, hi = N(bnd[0][1]), N(bnd[0][2])
            eqseen = any(kk[0] == '==' and not vv and len(kk) == 3 and (acc, mid) in (base(kk[1]), base(kk[2])) for kk, vv in s.facts.items())
            nlo = [N(l.next(s, q)) for q in lvs if N(q) == lo][0]
            nhi = [N(l.next(s, q)) for q in lvs if N(q) == hi][0]
            for x in range(0, 4):
                for y in range(x + 1, x + 5):
                    env = {lo: x, hi: y}
                    m, n1, n2 = evt(mid, env), evt(nlo, env), evt(nhi, env)
                    if None in (m, n1, n2):
                        j(None, 'searching halves the interval', 'not evaluable')
                        continue
                    ok = x <= m < y and ((n1, n2) == (m + 1, y) if below else (n1 == x and (n2 == m or n2 == m + 1 and not eqseen and m + 1 < y)))
                    j(ok, 'searching halves the interval', '[%d,%d) probing %d continues in [%d,%d) %s' % (x, y, m, n1, n2, 'behind' if below else 'before'))


def whole(P, E, R, rep):
    with rep.guard('checking a proof'):
        r = PRun(P, E, R, rep, 'check_proof')
        j = J(rep, 'checking a proof', r.where)
        ls = loops(r)
        em = ('m', F('empty_clause_id'), 0)

        def vg(t):
            return has(t, lambda x: len(x) > 0 and (x[0] in ('u', 'app', 'phi') or x[0] == 'r' and not str(x[-1]).endswith('check_resolution_chain')))

        def certain(st, *ts):
            return None if any(vg(t) for t in ts) or any(vg(k) for k in st.facts) else False

        def calls_(ev):
            return [(i, N(e[2][0])) for i, e in enumerate(ev) if e[0] == 'call' and e[1] == 'check_resolution_chain']

        work = [l for l in ls if any(calls_(ev) for _, ev in l.iters)]
        if len(work) != 1:
            j(None, 'every clause used is checked', '%d loops' % len(work))
            j.flush()
            return
        work = work[0]
        lists = {N(e[1]) for _, ev in work.iters for e in ev if e[0] == 'pop'}
        if len(lists) != 1:
            j(None, 'every clause used is checked', 'no work list')
            j.flush()
            return
        wl = lists.pop()
        sub = [l for l in nested(work, ls)]

        def verdict(st):
            for k, v in st.facts.items():
                if k[0] == '==' and 0 in k[1:] and has(k, lambda t: t[0] == 'r' and str(t[-1]).endswith('check_resolution_chain')):
                    return not v
            return None

        MK = PCL + '::marked'
        bymark = any(e[0] == 'w' and e[1][0] == 'F' and e[1][2] == MK for st, _ in list(r.outs) + list(work.iters) for e in st.cl[0])

        for s, ev in work.iters:
            c = calls_(ev)
            pop = [e for e in ev if e[0] == 'pop']
            top = [N(('fv', 0, e[2])) for e in pop]
            def popped(x):
                x = N(x)
                ix = x[2] if type(x) is tuple and x[0] == 'fv' else base(x)[1] if base(x)[0] == wl else None
                return ix is not None and any(ix == N(e[2]) for e in pop)

            old = [m for k, v in s.facts.items() if k[0] == '==' and len(k) == 3 and (0 in k[1:] and not v or 1 in k[1:] and v)
                   for m in walk(k, lambda t: t[0] == 'F' and t[2] == MK) if m[1][0] == '&' and m[1][1][0] == 'E' and popped(m[1][1][2])]
            if not c and old:
                j(True, 'every clause used is checked')       # already seen
                continue
            j(len(c) == 1 or (None if c or not bymark else certain(s)), 'every clause used is checked', 'a clause is taken off unchecked')
            for _, x in c:
                ix = x[2] if type(x) is tuple and x[0] == 'fv' else base(x)[1] if base(x)[0] == wl else None
                j(any(ix == N(e[2]) for e in pop) or (None if ix is None else False), 'every clause used is checked', 'checks %s, takes off %s' % (short(x), [short(e[2]) for e in pop]))
            j(verdict(s) is True or (None if verdict(s) is None and certain(s) is None and False else verdict(s) is True), 'one wrong derivation is enough to reject', 'goes on after a failed check')
            idx = c[0][1] if c else None
            marks_ = [(N(e[1]), e[2]) for e in ev if e[0] == 'w' and e[1][0] == 'F' and e[1][2] == PCL + '::marked']
            for m, v in marks_:
                if v == 1:
                    j(m == N(fld(idx, 'marked')[1]) or certain(s, m), 'only clauses taken or put on the list are marked', short(m))
            inner = [l for l in sub if any(e[0] == 'L' and e[1:] == l.key for e in ev)]
            if not inner:
                j(certain(s) if fact(s, size(chain(idx)), 0) is not True else True, 'the premises of a checked clause are checked', 'premises not visited')
            for l in inner:
                seen_all(j, r, l, s, size(chain(idx)), 'the premises of a checked clause are checked')
        for l in sub:
            for s, ev in l.iters:
                lv = [v for v in lvars(l) if {stepof(l, q, v) for q, _ in l.iters} == {1}]
                if len(lv) != 1:
                    j(None, 'the premises of a checked clause are checked', 'position not recognised')
                    continue
                ids = [x for x in walk((tuple(s.facts), tuple(ev)), lambda t: t[0] == 'm' and len(t) == 3 and t[1][0] == 'F' and str(t[1][2]).endswith('::second') and has(t, lambda q: q == lv[0]))]
                ids = {N(x) for x in ids}
                ps = [N(e[2]) for e in ev if e[0] == 'push' and N(e[1]) == wl]
                mk1 = {x for x in ids if fact(s, fld(x, 'marked'), 0) is False or fact(s, fld(x, 'marked'), 1) is True}
                j(bool([p for p in ps if p in ids]) or bool(mk1) or (None if not bymark else certain(s, tuple(ev))), 'the premises of a checked clause are checked', 'a premise not seen before is left out')
                for e in ev:
                    if e[0] == 'w' and e[1][0] == 'F' and e[1][2] == PCL + '::marked' and e[2] == 1:
                        j(any(N(e[1]) == N(fld(p, 'marked')[1]) for p in ps) or certain(s, e), 'only clauses taken or put on the list are marked', short(e[1]))
        for st in work.entries:
            ps = [N(e[2]) for e in st.cl[0] if e[0] == 'push' and N(e[1]) == wl]
            j(N(em) in ps or certain(st, tuple(ps)), 'checking starts from the empty clause', '%s' % [short(p) for p in ps])
            # no mark left over from before
            clr = [l for l in ls if any(e[0] == 'L' and e[1:] == l.key for e in st.cl[0]) and l.iters and all(any(e[0] == 'w' and e[1][0] == 'F' and e[1][2] == PCL + '::marked' and e[2] == 0 for e in ev) for _, ev in l.iters)]
            if clr:
                seen_all(j, r, clr[0], st, size(V('clauses')), 'no mark is left from an earlier check')
                for s, ev in clr[0].iters:
                    for e in ev:
                        if e[0] == 'w' and e[1][0] == 'F' and e[1][2] == PCL + '::marked':
                            j(any(N(e[1]) == N(fld(v, 'marked')[1]) for v in lvars(clr[0])) or certain(s, e), 'no mark is left from an earlier check', short(e[1]))
            else:
                # all ways out must clean up
                dirty = [st2 for st2, ret in r.outs if any(e[0] == 'call' and e[1] == 'check_resolution_chain' for e in st2.cl[0]) and not [e for e in st2.cl[0][-1:] if e[0] == 'L']]
                j(False if dirty and bymark else None, 'no mark is left from an earlier check', 'a check that fails leaves its marks')
        for st, ret in r.outs:
            none = fact(st, em, UNDEFC)
            done = any(e[0] == 'L' and e[1:] == work.key for e in st.cl[0])
            if type(ret) is not int:
                j(None, 'a proof is accepted only when every clause used is', short(ret))
                continue
            if ret:
                if not done:
                    j(certain(st), 'a proof is accepted only when every clause used is', 'accepted unchecked')
                    continue
                if none is not False:
                    j(certain(st) if none is None else False, 'without the empty clause there is no proof', 'not looked at')
                e = [v for k, v in st.facts.items() if k[0] == '==' and 0 in k[1:] and has(k, lambda t: t[0] == 'lv' and len(t) == 3 and N(t[2]) == wl or N(t) == N(size(wl)))]
                j(True in e or certain(st), 'a proof is accepted only when every clause used is', 'the list need not be empty')
            else:
                j(none is True or verdict(st) is False or certain(st), 'a proof is rejected only for a reason', '')
        j.flush('every clause used is checked', 'the premises of a checked clause are checked', 'one wrong derivation is enough to reject', 'a proof is accepted only when every clause used is')


# ------------------------------------------------------------ removing literals false at root
def rootlits(P, E, R, rep):
    with rep.guard('removing root literals'):
        r = PRun(P, E, R, rep, 'remove_root_literals')
        j = J(rep, 'removing root literals', r.where)
        ls = loops(r)
        ID = r.p(0)
        rl, rr = N(V('root_lit')), N(V('root_reason'))

        def at(x):
            """position of ~root_lit[p]"""
            x = N(x)
            if type(x) is tuple and x[:2] == ('call', '~lit'):
                b, p = base(x[2])
                return p if b == rl else None
            return None

        def fnd(s):
            """[(position, found)] of the searches on the path"""
            out = []
            for k, v in s.facts.items():
                for f in walk(k, lambda t: t[0] == 'call' and str(t[1]).split('::')[-1].split('@')[0].split('<')[0] == 'find' and len(t) >= 5):
                    p = at(f[4])
                    if p is not None and k[0] == '==':
                        out.append((p, not v))
            return out

        vec = set()
        for l in ls:
            kids = nested(l, ls)
            for s, ev in l.iters:
                lk = [(i, e[2]) for i, e in enumerate(ev) if e[0] == 'call' and e[1] == 'link_resolution']
                ap = [(i, e[2]) for i, e in enumerate(ev) if e[0] == 'call' and e[1] == 'apply_resolution']
                lv = [v for v in lvars(l) if all(type(x) is not tuple or 'root_lit' in str(x) or x[0] in ('lv', '-', '+') for x in l.init(v)) and l.next(s, v) is not None and type(N(l.next(s, v))) is tuple and N(l.next(s, v))[0] in ('+', '-', 'lv')]
                lv = [v for v in lv if not has(v, lambda t: False)]
                if lk or ap:
                    ok = len(lk) == 1 and len(ap) == 1
                    j(ok or certain(s), 'what is removed is recorded and applied alike', '%d links, %d removals' % (len(lk), len(ap)))
                    if ok:
                        p = at(lk[0][1][0])
                        j(p is not None and base(lk[0][1][1]) == (rr, p) or certain(s, *lk[0][1]), 'a literal is resolved with the reason recorded for it', '%s with %s' % tuple(short(x) for x in lk[0][1]))
                        a = ap[0][1]
                        j(at(a[2]) == p and N(a[1]) == N(matches(N(lk[0][1][1]))) or certain(s, *a), 'what is removed is recorded and applied alike', '%s' % [short(x) for x in a])
                        nx = [N(l.next(s, v)) for v in lv]
                        j(p in nx or (None if not nx or certain(s, *nx) is None else False), 'every root literal is looked at', 'goes from %s to %s' % (short(p), [short(x) for x in nx]))
                        # found on this path, or nothing skipped
                        for kd in kids:
                            ps = {q for s2, _ in kd.iters for q, _ in fnd(s2)}
                            for q in ps:
                                for kv_ in [x for x in lvars(kd) if has(q, lambda t: t == N(x))]:
                                    for x in kd.init(kv_):
                                        for ov in lv:
                                            if has(N(x), lambda t: t == N(ov)):
                                                a, b = evt(q, {N(kv_): 10}), evt(N(x), {N(ov): 10})
                                                j(None if a is None or b is None else a - 10 + b >= 9, 'every root literal is looked at', 'the search skips some')
                        f = dict(fnd(s)).get(p)
                        j(f is not False, 'a literal is removed when it occurs', 'resolved although it does not occur')
                elif not kids or not any(e[0] == 'L' and e[1:] in [k.key for k in kids] for e in ev):
                    f = fnd(s)
                    if f:
                        p, got = f[-1]
                        j(not got, 'a literal is removed when it occurs', 'it occurs and is left')
                        nx = [N(l.next(s, v)) for v in lv]
                        j(p in nx or (None if not nx or certain(s, *nx) is None else False), 'every root literal is looked at', 'goes from %s to %s' % (short(p), [short(x) for x in nx]))
                    elif any(e[0] == 'lib' for e in ev):
                        j(None, 'every root literal is looked at', 'search not recognised')
                for v in lv:
                    for x in l.init(v):
                        if has(x, lambda t: N(t) == N(size(V('root_lit')))) :
                            j(N(x) == N(size(V('root_lit'))) or (None if evt(N(x), {N(size(V('root_lit'))): 5}) is None or evt(N(x), {N(size(V('root_lit'))): 5}) == 4 else False), 'every root literal is looked at', 'from %s' % short(x))
                        elif type(x) is int:
                            j(False if x == 0 and stepof(l, s, v) == 1 else None, 'root literals are resolved latest first', 'starts at %s' % x)
        for st, _ in r.outs:
            ev = st.cl[0]
            c = [(e[1], [N(x) for x in e[2]]) for e in ev if e[0] == 'call' and e[1] in ('link_resolution', 'deactivate_clause', 'finalize_resolution', 'input_clause', 'cancel_resolution_chain')]
            names = [x[0] for x in c]
            j(names == ['link_resolution', 'deactivate_clause', 'finalize_resolution'] or (None if names != [] and set(names) <= {'link_resolution', 'deactivate_clause', 'finalize_resolution'} and len(names) > 3 else certain(st)), 'the clause is replaced by its derivation', '%s' % names)
            mk_ = [i for i, e in enumerate(ev) if e[0] == 'L']
            for i, e in enumerate(ev):
                if e[0] != 'call':
                    continue
                a = [N(x) for x in e[2]]
                if e[1] == 'link_resolution':
                    j(a == [0, N(ID)] or certain(st, *a), 'the derivation starts from the clause', '%s' % [short(x) for x in a])
                    if mk_:
                        j(i < mk_[0], 'the derivation starts from the clause', 'linked at the end')
                elif e[1] == 'deactivate_clause':
                    j(a == [N(ID)], 'the clause is replaced by its derivation', short(a[0]))
                elif e[1] == 'finalize_resolution':
                    v, p = edge(a[1])
                    j(a[0] == N(ID) and p == 0 and (a[2] == N(size(v)) or type(a[2]) is tuple and (a[2][:1] == ('lv',) or a[2][:1] == ('-',) and v in a[2] or has(a[2], lambda t: t == N(fld(matches(ID), 'size'))))) or certain(st, *a),
                      'the clause is replaced by its derivation', '%s' % [short(x) for x in a])
            zero = [1 for k, v in st.facts.items() if k[0] == '<' and k[1] == 0 and not v or k[0] == '==' and 0 in k[1:] and v]
            rl0 = any(has(k, lambda t: t[0] == 'lv') for k in st.facts)
            j(bool(zero) or (None if not rl0 else certain(st)), 'every root literal is looked at', 'may stop early')
        j.flush('what is removed is recorded and applied alike', 'every root literal is looked at', 'the clause is replaced by its derivation')


def resolve(P, E, R, rep):
    with rep.guard('resolving'):
        r = PRun(P, E, R, rep, 'apply_resolution')
        j = J(rep, 'resolving', r.where)
        ls = loops(r)
        B, C, PV = r.p(0), r.p(1), r.p(2)
        add = [l for l in ls if any(e[0] in ('push', 'vmut') for _, ev in l.iters for e in ev)]
        if len(add) != 1:
            j(None, 'the literals of the premise are added', '%d loops' % len(add))
            j.flush()
            return
        add = add[0]
        for s, ev in add.iters:
            ps = [N(e[2]) if e[0] == 'push' else N(e[3][-1]) for e in ev if e[0] in ('push', 'vmut')]
            neg = None
            L = None
            for k, v in s.facts.items():
                if k[0] == '==' and len(k) == 3:
                    for a, b in ((k[1], k[2]), (k[2], k[1])):
                        if neg_of(a, PV) and base(b)[0] == N(fld(C, 'lits')):
                            neg, L = v, N(b)
            if neg is True:
                j(not ps or certain(s), 'the negated pivot is left out', '')
            elif not ps:
                j(certain(s), 'the literals of the premise are added', 'one is left out')
            else:
                lvs = [N(v) for v in lvars(add)]
                j(any(ps == [N(lit(C, v))] for v in lvs) or certain(s, *ps), 'the literals of the premise are added', '%s' % [short(x) for x in ps])
                j(neg is False or certain(s), 'the negated pivot is left out', 'never looked for')
        for st, _ in r.outs:
            ev = st.cl[0]
            if any(e[0] == 'L' and e[1:] == add.key for e in ev):
                seen_all(j, r, add, st, fld(C, 'size'), 'the literals of the premise are added')
            er = [e for e in ev if e[0] == 'vmut' and e[2] == 'erase' and N(e[1]) == N(B)]
            ok = len(er) >= 1 and has(N(er[0][3]), lambda t: t[0] == 'call' and 'find' in str(t[1]) and N(PV) in t)
            j(ok or (None if er or any(e[0] in ('pop', 'lib') and 'find' not in str(e[1]) and 'sort' not in str(e[1]) for e in ev) else False), 'the pivot is removed', '%s' % [short(e[3]) for e in er])
        dl = [l for l in ls if l is not add and any(k[0] == '==' and base(k[1])[0] is not None and base(k[1])[0] == base(k[2])[0] for s, _ in l.iters for k in s.facts if len(k) == 3 and has(k, l.own))]
        for l in dl:
            dedup(j, l, 'duplicates are removed')
        j.flush('the literals of the premise are added', 'the pivot is removed')
