"""Variable heap: index consistency (every mutator) and order restoration (sift loops and their callers)."""
from nslib.spec import *
from nslib.absint import S

REC = 'napsat::utils::heap'
THIS = ('this',)


class Roles:
    def __init__(self, P):
        self.P = P
        self.heap = field_of(P, REC, lambda f: f['t'].startswith('std::vector<') and 'Tvar' in f['t'])
        self.index = field_of(P, REC, lambda f: 'indexed_vector<unsigned' in f['t'])
        self.act = field_of(P, REC, lambda f: 'indexed_vector<double' in f['t'])
        if not (self.heap and self.index and self.act):
            raise AnalysisError('anchor vanished: fields of ' + REC)
        self.H, self.I, self.A = [('&', ('F', THIS, q)) for q in (self.heap, self.index, self.act)]
        self.up = (P.fn(REC + '::heapify_up') or [None])[0]
        self.down = (P.fn(REC + '::heapify_down') or [None])[0]


class HC(VecClient):
    def __init__(self, R, opaque_sift=True):
        self.R = R
        self.vecs = (R.heap, R.index, R.act)
        self.sift = opaque_sift

    def hl(self, i): return ('E', self.R.H, i, 'napsat::Tvar')
    def il(self, k): return ('E', self.R.I, k, 'unsigned int')
    def al(self, k): return ('E', self.R.A, k, 'double')

    def write(self, eng, st, loc, val, site):
        if loc[0] == 'E' and loc[1] in (self.R.H, self.R.I, self.R.A):
            self.emit(st, 'w', {self.R.H: 'h', self.R.I: 'i', self.R.A: 'a'}[loc[1]], loc[2], val, eng.phase(st))

    def call2(self, eng, st, c):
        R = self.R
        if self.sift and R.up and c.fid == R.up.fid or self.sift and R.down and c.fid == R.down.fid:
            up = bool(R.up and c.fid == R.up.fid)
            a = eng.unloc(st, c.args[0])
            snap = tuple((k, v) for k, v in st.store.items() if k[0] == 'E' and k[1] in (R.I, R.A, R.H))
            self.emit(st, 'sift', 'up' if up else 'down', a, snap, self.vsize(st, R.H))
            # afterwards positions are permuted: forget index/heap
            self.emit(st, 'snap', snap)
            if up and a == 0:
                return [(st, 0)]        # the root cannot move up
            eng.havoc(st, {('F', R.heap), ('F', R.index)}, 'h' + S(c.ctx, c.node))
            for l in [l for l in st.store if l[0] == 'E' and l[1] in (R.H, R.I)]:
                del st.store[l]
            # keys outside the heap keep their (undefined) index: re-established by the caller's final writes
            return [(st, 0)]
        return None


def snapread(snap, loc):
    for k, v in snap:
        if k == loc:
            return v
    return None


def undef_value(P, E, R, rep):
    """the 'not in the heap' mark, read off contains()"""
    f = P.need(REC + '::contains')
    C = HC(R)
    key = ('p', 0, '')
    eng, outs = analyse(P, E, C, f)
    rep.engine(eng)
    U = None
    for st, v in outs:
        for k in list(st.facts) + ([v] if type(v) is tuple else []):
            while type(k) is tuple and k[0] == '!':
                k = k[1]
            if type(k) is tuple and k[0] == '==' and k[1] == ('m', C.il(key), 0) and type(k[2]) is int:
                U = k[2]
    if U is None:
        rep.und('contains', f.where(), 'membership test not recognised')
        return 0xFFFFFFFF
    inr, und = ('<', key, ('call', 'std::size', R.I)), ('==', ('m', C.il(key), 0), U)
    good = True
    for st, v in outs:
        # value on this path against: in range and index[key] != undef
        for a in (True, False):
            for b in (True, False):
                s2 = st.copy()
                if not s2.assume(inr, a) or not s2.assume(und, b):
                    continue
                d = s2.decide(v if type(v) is tuple and v[0] in ('==', '<', '!') else absint.truth(v))
                want = a and not b
                if not a and d is None:
                    # the index must not be consulted out of range: result has to be decided
                    good = good and None
                elif d is None:
                    good = good and None
                elif d != want:
                    rep.bad('contains', f.where(), 'contains(k) is %s when k %s the registered range and its index is%s the empty mark' % (d, 'is in' if a else 'is outside', '' if b else ' not'))
                    return U
    rep.check(good, 'contains', f.where(), 'result not decided by range and index')
    return U


def setup_base(R, C, n=None):
    def s(eng, st):
        pass
    return s


def check_index(P, E, rep):
    """H-index: positions and the index stay inverse to each other through every mutator"""
    R = Roles(P)
    U = undef_value(P, E, R, rep)
    key = ('p', 0, '')
    K, L = ('sym', 'key'), ('sym', 'last')
    H, I = R.H, R.I

    def run(qn, setup, args=None):
        f = P.need(REC + '::' + qn)
        C = HC(R)
        eng, outs = analyse(P, E, C, f, setup, args=args)
        rep.engine(eng)
        if not outs:
            rep.und(qn, f.where(), 'no normal exit found')
        return f, C, eng, outs

    def last_sift_or(C, st, loc, eng):
        """value of an index cell at the end, looking through sifts (which keep heap and index inverse)"""
        v = st.store.get(loc)
        if v is not None:
            return v
        for e in reversed(C.events(st)):
            if e[0] == 'snap':
                w = snapread(e[1], loc)
                if w is not None:
                    return w
        return None

    # ---- swap-like helpers are inlined; sift loops: every iteration exchanges two positions coherently
    for f, nm in ((R.up, 'sift up'), (R.down, 'sift down')):
        if f is None:
            rep.und('sift', 'src/utils/heap.cpp', 'no sift function found')
            continue
        sift_contract(P, E, R, f, f is R.up, rep, 'index')

    # ---- insert
    for reg in (True, False):
        isz = ('sym', 'isz')

        def setup(eng, st, reg=reg):
            C.setkv(st, ('n', I), isz)
            C.setkv(st, ('n', R.A), isz)
            C.setkv(st, ('n', H), ('sym', 'n'))
            st.assume(('<', key, isz), reg)
            if reg:
                st.store[C.il(key)] = U
        C = HC(R)
        f = P.need(REC + '::insert')
        eng, outs = analyse(P, E, C, f, setup)
        rep.engine(eng)
        for st, v in outs:
            ev = C.events(st)
            w = f.where()
            pushes = [e for e in ev if e[0] == 'push' and e[1] == H]
            tag = 'registered key' if reg else 'new key'
            if any(e[0] == 'vmut' for e in ev):
                rep.und('insert', w, 'unmodelled vector operation')
                continue
            rep.check(len(pushes) == 1 and pushes[0][2] == key, 'insert/push', w, 'insert(%s) does not append exactly the inserted key to the heap' % tag)
            if C.vsize(st, H) != mk('+', ('sym', 'n'), 1):
                rep.bad('insert/size', w, 'heap size after insert is %s' % pp(C.vsize(st, H)))
            iv = last_sift_or(C, st, C.il(key), eng)
            rep.check(None if iv is None or is_unknown(iv) else iv == ('sym', 'n'), 'insert/index', w, 'index of the inserted key is set to %s, not to its position' % pp(iv))
            if reg:
                bad = [e for e in ev if e[0] == 'resize']
                for e in bad:
                    if eng_lt(st, e[2], isz):
                        rep.bad('insert/resize', w, 'index table shrinks on insert')
            else:
                n2 = C.vsize(st, I)
                grown = n2 != isz and (n2 == mk('+', key, 1) or leq(st, key, n2, True) or (type(n2) is tuple and n2[0] == '+' and n2[1] == key and type(n2[2]) is int and n2[2] > 0))
                if not grown and not is_unknown(n2) and n2 in (isz, key):
                    rep.bad('insert/resize', w, 'index table not grown beyond the new key (size %s)' % pp(n2))
                    continue
                na = C.vsize(st, R.A)
                if na in (isz, key):
                    rep.bad('insert/resize', w, 'activity table not grown beyond the new key (size %s)' % pp(na))
                    continue
                fills = [e for e in ev if e[0] == 'resize' and e[1] == I and e[3] is not None]
                if fills:
                    rep.check(fills[-1][3] == U, 'insert/fresh', w, 'fresh index entries are filled with %s' % pp(fills[-1][3]))
                    continue
                ws = [e for e in ev if e[0] == 'w' and e[1] == 'i' and e[4] is not None]
                if any(e[3] != U for e in ws):
                    rep.bad('insert/fresh', w, 'a fresh index entry is initialised to %s instead of the empty mark' % pp([e[3] for e in ws if e[3] != U][0]))
                    continue
                c = scan_cover(st, [(e[2], e[4]) for e in ws], isz, (n2, key))
                rep.check(c, 'insert/fresh', w, 'index entries between the old and the new end of the table are not all initialised to the empty mark')

    # ---- pop / remove
    def after_removal(f, C, st, eng, victim, repl, pos, n, what):
        w = f.where()
        ev = C.events(st)
        if any(e[0] == 'vmut' for e in ev):
            rep.und(what, w, 'unmodelled vector operation')
            return
        if C.vsize(st, H) != mk('-', n, 1):
            rep.bad(what + '/size', w, 'heap size changes from %s to %s' % (pp(n), pp(C.vsize(st, H))))
            return
        iv = last_sift_or(C, st, C.il(victim), eng)
        rep.check(None if iv is None and any(e[0] == 'w' and e[1] == 'i' and e[2] not in (K, L) for e in ev) else iv == U, what + '/unindex', w,
                  'removed key keeps index %s instead of the empty mark' % pp(iv))
        if repl is not None:
            hv, ri = last_sift_or(C, st, C.hl(pos), eng), last_sift_or(C, st, C.il(repl), eng)
            rep.check(hv == repl, what + '/hole', w, 'the hole at %s holds %s, not the last element' % (pp(pos), pp(hv)))
            rep.check(ri == pos, what + '/reindex', w, 'the element moved to %s has index %s' % (pp(pos), pp(ri)))

    for single in (True, False):
        C = HC(R)
        n = 1 if single else ('sym', 'n')

        def setup(eng, st, n=n, single=single, C=C):
            C.setkv(st, ('n', H), n)
            if not single:
                st.assume(('<', 1, n), True)
                st.assume(('<', 0, n), True)
                st.assume(('==', n, 0), False)
                st.assume(('<', 0, mk('-', n, 1)), True)
                st.assume(('==', mk('-', n, 1), 0), False)
            st.store[C.hl(0)] = K
            st.store[C.il(K)] = 0
            if not single:
                st.store[C.hl(mk('-', n, 1))] = L
                st.store[C.il(L)] = mk('-', n, 1)
        f = P.need(REC + '::pop')
        eng, outs = analyse(P, E, C, f, setup)
        rep.engine(eng)
        for st, v in outs:
            after_removal(f, C, st, eng, K, None if single else L, 0, n, 'pop')
            rep.check(v == K, 'pop/value', f.where(), 'pop returns %s, not the root' % pp(v))
    for single in (True, False):
        C = HC(R)
        n, pos = ('sym', 'n'), ('sym', 'pos')
        if single:
            pos = mk('-', n, 1)

        def setup(eng, st, n=n, single=single, C=C, pos=pos):
            C.setkv(st, ('n', H), n)
            if not single:
                st.assume(('<', pos, mk('-', n, 1)), True)
            st.store[C.hl(pos)] = K
            st.store[C.il(K)] = pos
            if not single:
                st.store[C.hl(mk('-', n, 1))] = L
                st.store[C.il(L)] = mk('-', n, 1)
        f = P.need(REC + '::remove')
        eng, outs = analyse(P, E, C, f, setup, args=[K])
        rep.engine(eng)
        for st, v in outs:
            after_removal(f, C, st, eng, K, None if single else L, pos, n, 'remove')
    # ---- read-only accessors
    f = P.need(REC + '::top')
    C = HC(R)
    eng, outs = analyse(P, E, C, f)
    rep.engine(eng)
    for st, v in outs:
        rep.check(v == ('m', C.hl(0), 0) and not C.events(st), 'top', f.where(), 'top returns %s' % pp(v))
    for nm, want in (('size', lambda n: n), ('empty', lambda n: mk('==', n, 0))):
        f = P.need(REC + '::' + nm)
        C = HC(R)
        eng, outs = analyse(P, E, C, f)
        rep.engine(eng)
        n = ('call', 'std::size', H)
        for st, v in outs:
            d = v == want(n)
            if not d and nm == 'empty':
                d = st.decide(want(n)) == bool(v) if type(v) is int and st.decide(want(n)) is not None else None if not (type(v) is tuple and v == mk('!', want(n))) else False
            rep.check(d, nm, f.where(), '%s returns %s' % (nm, pp(v)))
    # ---- nobody else writes heap or index
    allowed = {'insert', 'remove', 'pop', 'update', 'increase_activity', 'normalize'}
    for f in P.funcs.values():
        if getattr(f, 'record', None) == REC and f.name not in allowed and f.access == 'public' and f.kind == 'method' and f.name in ('contains', 'top', 'size', 'empty', 'print'):
            m = E.mod[f.fid] & {('F', R.heap), ('F', R.index)}
            rep.check(not m, 'query', f.where(), '%s modifies the heap' % f.name)
    for nm in ('update', 'increase_activity', 'normalize'):
        f = P.need(REC + '::' + nm)
        C = HC(R)

        def setup(eng, st, C=C):
            C.setkv(st, ('n', H), ('sym', 'n'))
        eng, outs = analyse(P, E, C, f, setup)
        rep.engine(eng)
        for st, v in outs:
            ws = [e for e in C.events(st) if (e[0] == 'w' and e[1] in 'hi') or e[0] in ('push', 'pop') and e[1] == H or (e[0] in ('resize', 'clear') and e[1] in (H, I))]
            rep.check(None if any(e[0] == 'vmut' for e in C.events(st)) else not ws, nm + '/positions', f.where(), '%s changes positions without a sift: %s' % (nm, [pp(x) for x in ws][:2]))


def eng_lt(st, a, b):
    return leq(st, a, b, True)


def scan_cover(st, ws, lo, his):
    """do the writes at the indices ws (in path order, with loop phase) cover [lo, hi)?  True / False / None"""
    his = his if type(his) is tuple and his and type(his[0]) is tuple else (his,)
    idx = [i for i, p in ws]
    if any(is_unknown(i) for i in idx):
        return None
    if not idx:
        # zero iterations: the range must be known empty
        return True if any(leq(st, hi, lo) for hi in his) else (None if lo in his else False)
    up = None
    for (a, pa), (b, pb) in zip(ws, ws[1:]):
        if pa == 0 and pb == 1:
            continue
        d = 1 if b == mk('+', a, 1) else -1 if b == mk('-', a, 1) else 0
        if d == 0 or (up is not None and d != up):
            return False
        up = d
    if up == -1 or (up is None and idx[0] != lo):
        # descending scan
        first = idx[0]
        if not any(first == mk('-', hi, 1) for hi in his):
            return False
        last = idx[-1]
        return True if leq(st, last, lo) or leq(st, mk('-', last, 1), lo, True) else None
    if idx[0] != lo:
        return False
    nxt = mk('+', idx[-1], 1)
    if any(leq(st, hi, nxt) or st.decide(mk('==', nxt, hi)) for hi in his):
        return True
    return False


# ---------------------------------------------------------------- sift loops
def sift_contract(P, E, R, f, up, rep, aspect):
    """one obligation per iteration and per exit of a sift loop (see DESIGN.md): element K sits at the hole"""
    H, I, A = R.H, R.I, R.A
    K = ('sym', 'K')
    n = ('sym', 'n')
    res = {'bad': [], 'und': [], 'iters': 0, 'exits': 0}

    class C(HC):
        def reset(self):
            res.update(bad=[], und=[], iters=0, exits=0)

        def hole(self, st): return self.kv(st, 'hole')

        def place(self, eng, st, hole):
            """memory at an iteration boundary: K at hole, index inverse, everything else unconstrained"""
            for l in [l for l in st.store if l[0] == 'E' and l[1] in (H, I, A)]:
                del st.store[l]
            if self.kv(st, 'style') == 'hole':      # the sifted element is written back only at the end
                st.store[self.hl(hole)] = ('sym', 'stale')
                st.store[self.il(K)] = ('sym', 'stalepos')
            else:
                st.store[self.hl(hole)] = K
                st.store[self.il(K)] = hole
            st.cl = ((), tuple(x for x in st.cl[1] if x[0] != 'hole') + (('hole', hole),))
            # neighbours by name, so that their index cells are known
            p = mk('/', mk('-', hole, 1), 2)
            l, r = mk('+', mk('*', hole, 2), 1), mk('+', mk('*', hole, 2), 2)
            if up:
                st.store[self.hl(p)] = ('sym', 'P')
                st.store[self.il(('sym', 'P'))] = p
            else:
                st.store[self.hl(l)] = ('sym', 'L')
                st.store[self.hl(r)] = ('sym', 'R')
                st.store[self.il(('sym', 'L'))] = l
                st.store[self.il(('sym', 'R'))] = r
            # comparisons made on the previous neighbours do not carry over
            for k in list(st.facts):
                if any(occurs(k, ('sym', x)) for x in 'PLR'):
                    del st.facts[k]

        def loophead(self, eng, st, fn, b, ctx):
            ph = eng.phase(st)
            if len(st.ph) > 1:
                res['und'].append('nested loop')
                return
            if ph == 0:
                return
            if ph == 1:
                # every local that held the hole's position (or a neighbour's) holds it again
                new = None
                for lid, r in self.kv(st, 'oldlocals') or ():
                    v = st.store.get(('L', lid, ctx))
                    if r == 0 and v is not None and new is None and not is_unknown(v):
                        new = v
                new = new or ('sym', 'hole')
                for lid, r in self.kv(st, 'oldlocals') or ():
                    if ('L', lid, ctx) in st.store:
                        st.store[('L', lid, ctx)] = near(new)[r]
                self.place(eng, st, new)
            else:
                self.place(eng, st, self.kv(st, 'next'))

        def backedge(self, eng, st, fn, b, ctx, ph):
            hole = self.hole(st)
            nx = self.iteration(eng, st, hole, ph)
            if ph == 0:
                self.setkv(st, 'oldlocals', tuple(sorted((l[1], near(nx).index(v)) for l, v in st.store.items() if l[0] == 'L' and l[2] == ctx and v in near(nx))))
            self.setkv(st, 'next', nx)

        def stepcheck(self, st, pos, X, cands, hole):
            ak, ax = ('m', self.al(K), 0), ('m', self.al(X), 0)
            if up:
                if not leq(st, ax, ak):
                    res['bad' if leq(st, ak, ax, True) else 'und'].append(('order', 'an element moves up past a parent that is more active'))
            else:
                sp, SX = [c for c in cands if c[0] != pos][0]
                as_ = ('m', self.al(SX), 0)
                if not leq(st, ak, ax):
                    res['bad'].append(('order', 'an element moves down past a child that was not found at least as active'))
                sib_out = leq(st, n, sp)
                if not sib_out and not leq(st, as_, ax):
                    res['bad'].append(('order', 'the child promoted by a sift step was not compared with its sibling'))
                if not leq(st, pos, n, True):
                    res['bad'].append(('order', 'a sift step moves to a child not known to be inside the heap'))

        def iteration(self, eng, st, hole, ph):
            p = mk('/', mk('-', hole, 1), 2)
            l, r = mk('+', mk('*', hole, 2), 1), mk('+', mk('*', hole, 2), 2)
            cands = [(p, ('sym', 'P'))] if up else [(l, ('sym', 'L')), (r, ('sym', 'R'))]
            for pos, X in cands:
                if st.store.get(self.hl(pos)) == K:
                    if ph == 1:
                        return pos
                    res['iters'] += 1
                    if st.store.get(self.hl(hole)) != X:
                        res['bad'].append(('index', 'the displaced element is not put where the sifted one came from'))
                    elif st.store.get(self.il(K)) != pos or st.store.get(self.il(X)) != hole:
                        res['bad'].append(('index', 'after a sift step the index entries are %s and %s for positions %s and %s' % (
                            pp(st.store.get(self.il(K))), pp(st.store.get(self.il(X))), pp(pos), pp(hole))))
                    others = [e for e in self.events(st) if e[0] == 'w' and (e[1] == 'a' or e[1] == 'h' and e[2] not in (hole, pos) or e[1] == 'i' and e[3] not in (hole, pos))]
                    if others:
                        res['bad'].append(('index', 'a sift step also writes %s' % pp(others[0][2])))
                    self.stepcheck(st, pos, X, cands, hole)
                    return pos
            for pos, X in cands:
                if st.store.get(self.hl(hole)) == X and st.store.get(self.il(X)) == hole and len([e for e in self.events(st) if e[0] == 'w']) <= 2:
                    # the neighbour moves into the hole; the sifted element is written later
                    self.setkv(st, 'style', 'hole')
                    if ph == 1:
                        return pos
                    res['iters'] += 1
                    self.stepcheck(st, pos, X, cands, hole)
                    return pos
            if ph != 1:
                ev = [e for e in self.events(st) if e[0] == 'w']
                if not ev:
                    res['bad'].append(('order', 'a sift iteration moves nothing'))
                else:
                    res['bad'].append(('index', 'a sift iteration does not exchange the sifted element with its %s (writes %s)' % ('parent' if up else 'child', pp(ev[0][2]))))
            return p if up else l

        def call2(self, eng, st, c):
            if c.fid != f.fid:
                return None
            # recursion: the call is the next iteration
            if [e for e in self.events(st) if e[0] == 'w']:
                pos = self.iteration(eng, st, self.hole(st), 0)
                a = eng.unloc(st, c.args[0])
                if a != pos:
                    res['bad' if not is_unknown(a) else 'und'].append(('order', 'the sift continues at %s instead of the new position %s' % (pp(a), pp(pos))))
                return []
            res['und'].append(('order', 'recursive call before the exchange'))
            return []

        def branch(self, eng, st, atom, val, fn, blk):
            return not (val and atom[0] == '==' and rel(atom[1], atom[2]))

        def exitcheck(self, eng, st):
            hole = self.hole(st)
            style = self.kv(st, 'style') == 'hole'
            res['exits'] += 1
            p = mk('/', mk('-', hole, 1), 2)
            l, r = mk('+', mk('*', hole, 2), 1), mk('+', mk('*', hole, 2), 2)
            ws = [e for e in self.events(st) if e[0] == 'w']
            if style or ws and all(e[2] in (hole, K) and e[3] in (hole, K) for e in ws):
                if st.store.get(self.hl(hole)) != K or st.store.get(self.il(K)) != hole:
                    res['bad'].append(('index', 'the sifted element is not written back at its final position %s' % pp(hole)))
                    return
                ws = [e for e in ws if not (e[2] in (hole, K) and e[3] in (hole, K))]
            if ws:
                # moved in the unfinished iteration
                res['und'].append(('order', 'exit in the middle of an iteration'))
                return
            ak = ('m', self.al(K), 0)
            if up:
                if st.decide(mk('==', hole, 0)) or leq(st, hole, 0) or leq(st, ak, ('m', self.al(('sym', 'P')), 0)):
                    return
                res['bad'].append(('order', 'sift-up stops at position %s, which is neither the root nor below a parent at least as active' % pp(hole)))
            else:
                for pos, X in ((l, 'L'), (r, 'R')):
                    if leq(st, n, pos) or leq(st, ('m', self.al(('sym', X)), 0), ak):
                        continue
                    if X == 'R' and leq(st, n, l):
                        continue
                    res['bad'].append(('order', 'sift-down stops above %s child that may be more active' % ('a left' if X == 'L' else 'a right')))

    C = C(R, False)

    def setup(eng, st):
        C.setkv(st, ('n', H), n)
        C.place(eng, st, ('p', 0, ''))
    C.distinct = lambda a, b: (type(a) is tuple and type(b) is tuple and a != b and is_pos(a) and is_pos(b) and rel(a, b))
    eng, outs = analyse(P, E, C, f, setup)
    rep.engine(eng)
    for st, v in outs:
        C.exitcheck(eng, st)
    w = f.where()
    nm = 'sift-up' if up else 'sift-down'
    bad = [b for b in dict.fromkeys(res['bad']) if b[0] == aspect]
    for b in bad:
        rep.bad(nm + '/' + b[0], w, b[1])
    for b in dict.fromkeys(res['und']):
        if b == 'nested loop' or b[0] == aspect:
            rep.und(nm, w, str(b))
    if not res['iters'] and not bad:
        rep.und(nm, w, 'no sift iteration recognised')
    elif not bad:
        rep.ok(nm + '/step', w, '%d iterations' % res['iters'])
        rep.ok(nm + '/exit', w, '%d exits' % res['exits'])


def near(h):
    return (h, mk('/', mk('-', h, 1), 2), mk('+', mk('*', h, 2), 1), mk('+', mk('*', h, 2), 2))


def is_pos(a):
    return True


def rel(a, b):
    """positions in the parent/child relation of one another never coincide"""
    def kids(x):
        return (mk('+', mk('*', x, 2), 1), mk('+', mk('*', x, 2), 2))
    if b in kids(a) or a in kids(b):
        return True
    if mk('/', mk('-', a, 1), 2) == b or mk('/', mk('-', b, 1), 2) == a:
        return True
    return type(a) is tuple and type(b) is tuple and a[0] == b[0] == '+' and a[1] == b[1] and type(a[2]) is int and type(b[2]) is int and a[2] != b[2]


def check_order(P, E, rep):
    R = Roles(P)
    H, I = R.H, R.I
    for f, up in ((R.up, True), (R.down, False)):
        if f is None:
            rep.und('sift', 'src/utils/heap.cpp', 'no sift function found')
        else:
            sift_contract(P, E, R, f, up, rep, 'order')
    K, L = ('sym', 'key'), ('sym', 'last')
    n = ('sym', 'n')

    def sifts(C, st):
        return [e for e in C.events(st) if e[0] == 'sift']

    def evidx(C, st, e):
        return [i for i, x in enumerate(C.events(st)) if x is e][0]

    def posok(a, pos, key, C, snap):
        return a == pos or a == snapread(snap, C.il(key)) or (type(a) is tuple and a[0] == 'm' and a[1] == C.il(key))

    # insert: activity stored, appended, then sifted up
    for reg in (True, False):
        C = HC(R)
        isz = ('sym', 'isz')
        key, act = ('p', 0, ''), ('p', 1, '')

        def setup(eng, st):
            C.setkv(st, ('n', I), isz)
            C.setkv(st, ('n', R.A), isz)
            C.setkv(st, ('n', H), n)
            st.assume(('<', key, isz), reg)
        f = P.need(REC + '::insert')
        eng, outs = analyse(P, E, C, f, setup)
        rep.engine(eng)
        for st, v in outs:
            s = [e for e in sifts(C, st) if e[1] == 'up']
            if not s:
                moved = [e for e in C.events(st) if e[0] == 'w' and e[1] == 'h']
                rep.check(False if len(moved) <= 1 else None, 'insert/sift', f.where(), 'the inserted key is never sifted up')
                continue
            e = s[-1]
            rep.check(posok(e[2], n, key, C, e[3]), 'insert/sift', f.where(), 'sift-up after insert starts at %s instead of the new position' % pp(e[2]))
            av = snapread(e[3], C.al(key))
            rep.check(av == act, 'insert/activity', f.where(), 'when the inserted key is sifted its activity is %s' % pp(av))
            rep.check(st.store.get(C.al(key)) == act, 'insert/activity', f.where(), 'activity of the inserted key ends as %s' % pp(st.store.get(C.al(key))))
    # update / increase
    for nm, need in (('update', 'both'), ('increase_activity', 'up')):
        key, act = ('p', 0, ''), ('p', 1, '')
        C = HC(R)
        f = P.need(REC + '::' + nm)
        pos = ('m', C.il(key), 0)

        def setup(eng, st):
            C.setkv(st, ('n', H), n)
        eng, outs = analyse(P, E, C, f, setup)
        rep.engine(eng)
        for st, v in outs:
            old = ('m', C.al(key), 0)
            s = sifts(C, st)
            needs = {'up', 'down'} if need == 'both' else {'up'}
            if leq(st, act, old):
                needs.discard('up')
            if leq(st, old, act):
                needs.discard('down')
            rep.check(st.store.get(C.al(key)) == act, nm + '/activity', f.where(), 'activity becomes %s' % pp(st.store.get(C.al(key))))
            for d in sorted(needs):
                c = [e for e in s if e[1] == d and posok(e[2], pos, key, C, e[3])]
                if not c:
                    rep.bad(nm + '/sift', f.where(), 'after %s the key is not sifted %s from its position' % (nm, d))
                    continue
                rep.check(snapread(c[-1][3], C.al(key)) == act, nm + '/sift', f.where(), 'the sift %s runs before the new activity is stored' % d)
    # pop
    C = HC(R)
    f = P.need(REC + '::pop')

    def setup(eng, st):
        C.setkv(st, ('n', H), n)
        m = mk('-', n, 1)
        for a in (('<', 1, n), ('<', 0, n), ('<', 0, m)):
            st.assume(a, True)
        st.assume(('==', n, 0), False)
        st.assume(('==', m, 0), False)
        st.store[C.hl(0)], st.store[C.il(K)] = K, 0
        st.store[C.hl(m)], st.store[C.il(L)] = L, m
    eng, outs = analyse(P, E, C, f, setup)
    rep.engine(eng)
    for st, v in outs:
        if C.vsize(st, H) == n:
            continue
        s = [e for e in sifts(C, st) if e[1] == 'down']
        d2 = n
        rep.check(bool(s) and s[-1][2] in (0, snapread(s[-1][3], C.il(L))), 'pop/sift', f.where(), 'after pop the new root is not sifted down')
        if s:
            rep.check(s[-1][4] == mk('-', n, 1), 'pop/sift', f.where(), 'sift-down runs while the popped key is still inside the heap')
            rep.check(snapread(s[-1][3], C.hl(0)) == L, 'pop/sift', f.where(), 'sift-down runs before the last element is at the root')
    # remove
    C = HC(R)
    pos = ('sym', 'pos')
    f = P.need(REC + '::remove')

    def setup(eng, st):
        C.setkv(st, ('n', H), n)
        st.assume(('<', pos, mk('-', n, 1)), True)
        st.store[C.hl(pos)], st.store[C.il(K)] = K, pos
        st.store[C.hl(mk('-', n, 1))], st.store[C.il(L)] = L, mk('-', n, 1)
    eng, outs = analyse(P, E, C, f, setup, args=[K])
    rep.engine(eng)
    for st, v in outs:
        s = sifts(C, st)
        ak, al = ('m', C.al(K), 0), ('m', C.al(L), 0)
        needs = {'up', 'down'}
        if leq(st, al, ak): needs.discard('up')
        if leq(st, ak, al): needs.discard('down')
        if st.decide(mk('==', pos, 0)): needs.discard('up')
        # the parent of the hole decides which direction is needed
        ap = ('m', C.al(('m', C.hl(mk('/', mk('-', pos, 1), 2)), 0)), 0)
        for d in sorted(needs):
            c = [e for e in s if e[1] == d and posok(e[2], pos, L, C, e[3])]
            if not c and [k for k in st.facts if occurs_head(k, R.A) and not (k[0] in ('<', '==') and set(k[1:]) == {ak, al})]:
                rep.und('remove/sift', f.where(), 'direction chosen by a comparison that is not recognised')
                continue
            rep.check(bool(c), 'remove/sift', f.where(), 'the element moved into the hole is not sifted %s' % d)
            if c:
                rep.check(c[-1][4] == mk('-', n, 1), 'remove/sift', f.where(), 'the sift runs while the removed key is still inside the heap')
                rep.check(snapread(c[-1][3], C.hl(pos)) == L or len(s) > 1 and c[0] is not s[0], 'remove/sift', f.where(), 'the sift runs before the last element fills the hole')
    # normalize: every activity scaled by the same factor
    f = P.need(REC + '::normalize')
    C = HC(R)

    def setup(eng, st):
        C.setkv(st, ('n', R.A), ('sym', 'na'))
    eng, outs = analyse(P, E, C, f, setup)
    rep.engine(eng)
    for st, v in outs:
        ws = [e for e in C.events(st) if e[0] == 'w' and e[1] == 'a']
        okv = all(e[3] in (mk('*', ('m', C.al(e[2]), 0), ('p', 0, '')), ('*', ('p', 0, ''), ('m', C.al(e[2]), 0))) or
                  (type(e[3]) is tuple and e[3][0] == '*' and ('p', 0, '') in e[3][1:] and any(type(x) is tuple and x[0] == 'm' and x[1] == C.al(e[2]) for x in e[3][1:])) for e in ws)
        if not okv:
            rep.bad('normalize/scale', f.where(), 'an activity is rescaled to %s' % pp([e[3] for e in ws][0]))
            continue
        c = scan_cover(st, [(e[2], e[4]) for e in ws], 0, (('sym', 'na'),))
        rep.check(c, 'normalize/all', f.where(), 'not every activity is rescaled')


def occurs_head(k, vec):
    return occurs(k, vec) or any(type(x) is tuple and occurs_head(x, vec) for x in k if type(x) is tuple)
