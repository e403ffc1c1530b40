"""A01: the balanced tree as a set ordered by (key, data): per path of every operation, per iteration of every loop."""
from rules.solver import *
from rules.luby import ev as evalt

REC = 'utils::AVLTree'
NODE = REC + '::AVLNode'
OPAQUE = ('rotate_left', 'rotate_right', 'height', 'is_balanced', 'is_bst')


class Roles:
    def __init__(self, P):
        r, n = P.records.get(REC), P.records.get(NODE)
        if not r or not n:
            raise AnalysisError('anchor vanished: ' + REC)
        nf = {f['name'] for f in n['fields']}
        rf = {f['name'] for f in r['fields']}
        if not {'_key', '_data', '_height', '_left', '_right'} <= nf or not {'_root'} <= rf:
            raise AnalysisError('anchor vanished: representation of ' + REC)
        self.vecs = tuple(REC + '::' + f['name'] for f in r['fields'] if 'vector<' in f['t'])


class AC(SC):
    keepfacts = True

    def __init__(self, R, follow=()):
        self.R, self.vecs, self.follow = R, R.vecs, follow

    def setup(self, eng, st):
        pass

    def inline(self, eng, fid, qn, depth):
        n = qn.split('::')[-1]
        return n in self.follow or n not in OPAQUE

    def call2(self, eng, st, c):
        n = c.qn.split('::')[-1]
        if n in OPAQUE and n not in self.follow and REC in c.qn:
            args = tuple(eng.unloc(st, x) for x in c.args)
            if n in ('height', 'is_balanced', 'is_bst'):
                return [(st, ('call', n, args[0] if args else c.this))]
            self.emit(st, 'call', n, args)
            r = ('call', n) + args + (('k', len(st.cl[0])),)
            return [(st, r)]
        return None

    def delete(self, eng, st, v, node):
        self.emit(st, 'delete', v)


def fld(n, f):
    return ('F', n, NODE + '::' + f)


def mf(n, f):
    return ('m', fld(n, f), 0)


def isf(t, n, f):
    """t is (a reading of) field f of node n"""
    return type(t) is tuple and t[0] == 'm' and t[1][0] == 'F' and t[1][2] == NODE + '::' + f and eqs(t[1][1], n)


ORD = {'<': (lambda a, b: a < b), '==': (lambda a, b: a == b)}


def cmps(st, a, b, a2=None, b2=None):
    """possible orders of (a, a2) against (b, b2) given the path: subset of '<=>' ; and whether the path says anything about them"""
    fs = [(strip(k), v) for k, v in st.facts.items() if k[0] in ('<', '==')]
    A, B, A2, B2 = strip(a), strip(b), strip(a2), strip(b2)
    out, seen = set(), False
    for x in (-1, 0, 1):
        for y in ((-1, 0, 1) if a2 is not None else (0,)):
            ok = True
            for k, v in fs:
                for p, q, s in ((A, B, x), (A2, B2, y)):
                    if p is None:
                        continue
                    if k[1:] == (p, q) or k[1:] == (q, p):
                        seen = True
                        s2 = s if k[1:] == (p, q) else -s
                        if (s2 < 0 if k[0] == '<' else s2 == 0) != v:
                            ok = False
            if ok:
                c = x if x else y
                out.add('<' if c < 0 else '>' if c > 0 else '=')
    return out, seen


def heights(st, a, b):
    """possible differences height(a) - height(b), given the path"""
    ha, hb = ('call', 'height', strip(a)), ('call', 'height', strip(b))
    fs = []
    for k, v in st.facts.items():
        s = strip(k)
        if has(s, lambda t: t == ha or t == hb):
            fs.append((s, v))
    out = set()
    for d in (-2, -1, 0, 1, 2):
        x, y = 10 + max(d, 0), 10 - min(d, 0)
        if d:
            x, y = (10 + d, 10) if d > 0 else (10, 10 - d)
        ok = True
        for k, v in fs:
            r = evs(k, {ha: x, hb: y})
            if r is not None and bool(r) != v:
                ok = False
        if ok:
            out.add(d)
    return out, bool(fs)


def evs(t, env):
    """signed evaluation of comparisons over heights"""
    if type(t) is int:
        return t
    if t in env:
        return env[t]
    if type(t) is not tuple or t[0] not in ('+', '-', '*', '<', '==', 'max', 'min', '!', '&&', '||'):
        return None
    xs = [evs(x, env) for x in t[1:]]
    if None in xs:
        return None
    o = t[0]
    if o == '-':
        return xs[0] - xs[1] if len(xs) == 2 else -xs[0]
    if o == '+':
        return sum(xs)
    if o == '*':
        return xs[0] * xs[1]
    if o == '<':
        return int(xs[0] < xs[1])
    if o == '==':
        return int(xs[0] == xs[1])
    if o == 'max':
        return max(xs)
    if o == 'min':
        return min(xs)
    if o == '!':
        return int(not xs[0])
    return None


def is0(st, t):
    if type(t) is int:
        return t == 0
    if type(t) is tuple and t[0] == 'new':
        return False
    r = st.decide(mk('==', t, 0))
    if r is None:
        s = strip(mk('==', t, 0))
        for k, v in st.facts.items():
            if strip(k) == s:
                r = v
    return r


def check(P, E, rep):
    R = Roles(P)
    for q, f in (('rotate_left', rotation), ('rotate_right', rotation), ('insert', insert), ('remove', remove), ('find_best_fit', best)):
        fs = P.fn(REC + '::' + q)
        if not fs:
            raise AnalysisError('anchor vanished: %s::%s' % (REC, q))
        with rep.guard(q, fs[0].where()):
            C = AC(R, follow=(q,))
            eng, outs = analyse(P, E, C, fs[0])
            rep.engine(eng)
            j = J(rep, q, fs[0].where())
            f(j, q, eng, outs, C)
    for q, f in (('height', height), ('is_balanced', balq), ('is_bst', bstq)):
        fs = P.fn(NODE + '::' + q)
        if not fs:
            continue
        with rep.guard(q, fs[0].where()):
            C = AC(R)
            eng, outs = analyse(P, E, C, fs[0])
            rep.engine(eng)
            j = J(rep, q + ' of a node', fs[0].where())
            f(j, q, eng, outs, C)


def tri(st, a, b):
    if eqs(a, b):
        return True
    return eqt(st, a, b)


# ------------------------------------------------------------ rotations
def rotation(j, q, eng, outs, C):
    near, far = ('_right', '_left') if q == 'rotate_left' else ('_left', '_right')
    b = ('p', 0, '')
    for st, ret in outs:
        d = mf(b, near)
        c = mf(d, far)
        rd = lambda n, f: eng.read(st, fld(n, f))
        j(tri(st, ret, d), 'the child comes up', lambda: 'returns ' + short(ret))
        j(tri(st, rd(d, far), b), 'the old root becomes its child', lambda: short(rd(d, far)))
        j(tri(st, rd(b, near), c), 'the middle subtree changes its parent', lambda: short(rd(b, near)))
        j(tri(st, rd(b, far), mf(b, far)) and tri(st, rd(d, near), mf(d, near)), 'the outer subtrees stay', lambda: '%s %s' % (short(rd(b, far)), short(rd(d, near))))
        j(tri(st, rd(b, '_key'), mf(b, '_key')) and tri(st, rd(d, '_key'), mf(d, '_key')) and tri(st, rd(b, '_data'), mf(b, '_data')) and tri(st, rd(d, '_data'), mf(d, '_data')), 'the entries stay in their nodes')
        w = [(i, e) for i, e in enumerate(st.cl[0]) if e[0] == 'w' and e[1][0] == 'F' and e[1][2] == NODE + '::_height']
        hb = [(i, e[2]) for i, e in w if eqs(e[1][1], b)]
        hd = [(i, e[2]) for i, e in w if eqs(e[1][1], d)]
        j(bool(hb) and hval(st, hb[-1][1], c, mf(b, far)), 'the height of the lowered node is recomputed', lambda: short(hb[-1][1]) if hb else 'not written')
        j(bool(hd) and hval(st, hd[-1][1], b, mf(d, near)), 'the height of the raised node is recomputed', lambda: short(hd[-1][1]) if hd else 'not written')
        j(bool(hb) and bool(hd) and hb[-1][0] < hd[-1][0], 'the lowered node is measured before the raised one')
    j.flush('the child comes up')


def hval(st, v, x, y):
    """v is max(height(x), height(y)) + 1, possibly resolved to the larger one by the path"""
    hx, hy = ('call', 'height', strip(x)), ('call', 'height', strip(y))
    s = strip(v)
    if type(s) is tuple and s[0] == '+' and s[2] == 1:
        a = s[1]
        if type(a) is tuple and a[0] == 'max' and set(a[1:]) == {hx, hy}:
            return True
        if a in (hx, hy):
            # chosen by a comparison on this path
            d, said = heights(st, x, y)
            if said:
                return all((k >= 0) if a == hx else (k <= 0) for k in d)
            return False
        if fuzzy(a) or not has(a, lambda t: t == hx or t == hy):
            return None if fuzzy(a) else False
        return None if has(a, lambda t: t[0] == 'ite') else False
    return None if fuzzy(s) else False


# ------------------------------------------------------------ descent shared by insert / remove / best fit
KEY, DATA = ('p', 0, ''), ('p', 1, '')


def order(st, n, data=True):
    return cmps(st, KEY, mf(n, '_key'), DATA, mf(n, '_data')) if data else cmps(st, KEY, mf(n, '_key'))


def step(j, st, n, nxt, data=True):
    c, said = order(st, n, data)
    if isf(nxt, n, '_left'):
        j(c <= {'<'} or (False if said or not st.facts else None), 'smaller entries are looked for on the left', lambda: 'order %s; %s' % (''.join(sorted(c)), facts(st)))
    elif isf(nxt, n, '_right'):
        j(c <= {'>'} or (False if said or not st.facts else None), 'larger entries are looked for on the right', lambda: 'order %s; %s' % (''.join(sorted(c)), facts(st)))
    else:
        j(None if fuzzy(nxt, (n,)) else False, 'the search goes down one side', lambda: short(nxt))


def descent(C):
    """(loop, node variable) of the loop that walks down from the root"""
    out = []
    for k, es in C.entries.items():
        its = C.iters.get(k, [])
        for st, ev in its:
            for l, v in st.store.items():
                if l[0] == 'L' and type(v) is tuple and v[0] == 'm' and v[1][0] == 'F' and v[1][2] in (NODE + '::_left', NODE + '::_right'):
                    n = v[1][1]
                    if type(n) is tuple and n[0] == 'lv' and n[1][1:] == absint.S(k[0], k[2]) and n[2] == l[1]:
                        if (k, n) not in out:
                            out.append((k, n))
    return out


def insert(j, q, eng, outs, C):
    ds = descent(C)
    if len(ds) != 1:
        j(None, 'the search goes down one side', '%d descents found' % len(ds))
        j.flush()
        return
    k, n = ds[0]
    root = ('F', THIS, REC + '::_root')
    for e in C.entries[k]:
        v = e.store.get(('L', n[2], k[0]))
        j(tri(e, v, ('m', root, 0)), 'the search starts at the root', lambda: short(v))
        for a in C.vecs:
            j(same(e, C.vsize(e, ('&', ('F', THIS, a))), 0) or False, 'the list of nodes passed starts empty', lambda: facts(e))
    for st, ev in C.iters.get(k, []):
        step(j, st, n, st.store.get(('L', n[2], k[0])))
        ps = [e for e in ev if e[0] == 'push']
        j(len(ps) == 1 and (eqs(ps[0][2], n) or (None if fuzzy(ps[0][2], (n,)) else False)), 'every node passed is remembered', lambda: '%d pushes' % len(ps))
        j(not [e for e in ev if e[0] == 'w' and e[1][0] == 'F'], 'searching changes nothing')
    for st, ret in outs:
        ev = st.cl[0]
        ins = [e for e in ev if e[0] == 'w' and (e[1] == root or e[1][0] == 'F' and e[1][2] in (NODE + '::_left', NODE + '::_right')) and type(e[2]) is tuple and e[2][0] == 'new']
        if ret == 0:
            c, said = order(st, n)
            j(c <= {'='} or False, 'only an entry already present is refused', lambda: facts(st))
            j(not ins, 'a refused entry is not added')
            continue
        j(ret == 1 or None, 'adding an entry reports success', lambda: short(ret))
        if not j(len(ins) == 1 or (None if not ins and any(e[0] == 'w' and fuzzy(e[2]) for e in ev) else False), 'an entry is added once', lambda: '%d nodes linked; %s' % (len(ins), facts(st))):
            continue
        _, loc, nd = ins[0]
        if loc == root:
            j(is0(st, ('m', root, 0)) or False, 'the root is replaced only in an empty tree', lambda: facts(st))
        else:
            c, said = order(st, n)
            side = loc[2].split('::')[-1]
            j(eqs(loc[1], n) or None, 'the new node hangs below the last node passed', lambda: short(loc))
            j(c <= {'<' if side == '_left' else '>'} or False, 'the new node hangs on the side its entry belongs to', lambda: '%s: order %s; %s' % (side, ''.join(sorted(c)), facts(st)))
            j(is0(st, mf(n, side)) or False, 'no subtree is overwritten by the new node', lambda: facts(st))
            ps = [e for e in ev if e[0] == 'push']
            j(bool(ps) and eqs(ps[-1][2], n) or None, 'every node passed is remembered')
        for f, v in (('_key', KEY), ('_data', DATA), ('_left', 0), ('_right', 0), ('_height', 1)):
            ws = [e[2] for e in ev if e[0] == 'w' and e[1] == fld(nd, f)]
            j(bool(ws) and (same(st, ws[-1], v) or (None if fuzzy(ws[-1]) else False)), 'the new node holds the entry and no subtrees', lambda: '%s = %s' % (f, [short(x) for x in ws]))
    fixup(j, q, eng, outs, C, k)
    j.flush('an entry is added once', 'only an entry already present is refused')


def fixup(j, q, eng, outs, C, *skip):
    root = ('F', THIS, REC + '::_root')
    todo = []
    found = False
    for k, es in C.entries.items():
        if k in skip:
            continue
        its = C.iters.get(k, [])
        if not any(any(e[0] == 'call' and e[1].startswith('rotate') for e in ev) for _, ev in its):
            continue
        found = True
        mark = ('L',) + k
        for st, ev in its:
            todo.append((st, ev, False))
        for st, ret in outs:
            ev = st.cl[0]
            if mark in ev:
                ev = ev[len(ev) - 1 - ev[::-1].index(mark) + 1:]
                if any(e[0] == 'pop' for e in ev):
                    todo.append((st, ev, True))
    if not found:
        j(None, 'the tree is rebalanced on the way up', 'no rebalancing loop found')
        return
    done = set()
    for st, ev, leaves in todo:
        pops = [e for e in ev if e[0] == 'pop']
        if len(pops) != 1:
            j(None if not leaves else None, 'one node is rebalanced at a time', '%d' % len(pops))
            continue
        key = (tuple(ev), tuple(sorted((str(a), b) for a, b in st.facts.items() if 'height' in str(a) or '_left' in str(a) or '_right' in str(a))), leaves)
        if key in done:
            continue
        done.add(key)
        N = ('m', ('E', pops[0][1], pops[0][2], ''), 0)
        j(not [e for e in ev if e[0] in ('clear', 'resize', 'vmut', 'push')] or (False if any(e[0] in ('clear', 'resize') for e in ev) and not leaves else None), 'no node passed is skipped on the way up')
        eqN = lambda t: type(t) is tuple and t[0] == 'm' and t[1][0] == 'E' and t[1][1] == pops[0][1] and eqs(t[1][2], pops[0][2])
        nodes = [t for e in ev for t in walk(e, eqN)] + [t for k in st.facts for t in walk(k, eqN)]
        if not nodes:
            j(None, 'the node popped is the one rebalanced')
            continue
        N = nodes[0]
        L, Rr = mf(N, '_left'), mf(N, '_right')
        hw = [(i, e) for i, e in enumerate(ev) if e[0] == 'w' and e[1][0] == 'F' and e[1][2] == NODE + '::_height' and eqs(e[1][1], N)]
        rots = [(i, e) for i, e in enumerate(ev) if e[0] == 'call' and e[1].startswith('rotate')]
        j(bool(hw) and (not rots or hw[0][0] < rots[0][0]) and hval(st, hw[0][1][2], L, Rr), 'the height of every node passed is recomputed before it is judged', lambda: short(hw[0][1][2]) if hw else 'height not written')
        B, said = heights(st, L, Rr)
        links = [e for e in ev if e[0] == 'w' and (e[1] == root or e[1][0] == 'F' and e[1][2] in (NODE + '::_left', NODE + '::_right'))]
        if not rots:
            j(B <= {-1, 0, 1} or (False if said or not st.facts else None), 'an unbalanced node is rotated', lambda: 'balance in %s; %s' % (sorted(B), facts(st)))
            j(not links or None, 'nothing is relinked without rotation')
        else:
            last_ = rots[-1][1]
            d = 2 if last_[1] == 'rotate_right' else -2
            side = '_left' if d == 2 else '_right'
            inner = '_right' if d == 2 else '_left'
            j(B == {d} or (False if said else None), 'a node is rotated only away from its deeper side', lambda: '%s with balance in %s' % (last_[1], sorted(B)))
            j(eqs(last_[2][0], N), 'the unbalanced node is rotated', lambda: short(last_[2][0]))
            ch = mf(N, side)
            c, cs = cmps(st, KEY, mf(ch, '_key'), DATA, mf(ch, '_data'))
            hh, hs = heights(st, mf(ch, side), mf(ch, inner))
            single = len(rots) == 1
            if single:
                ok = (q == 'insert' and cs and c <= {'<' if d == 2 else '>'}) or hs and hh <= {0, 1, 2}
                bad = q == 'insert' and cs or hs
                j(ok or (False if bad or True else None), 'a single rotation only when the outer grandchild is the deeper one', lambda: 'order %s, heights %s; %s' % (''.join(sorted(c)), sorted(hh), facts(st)))
            else:
                first = rots[0][1]
                ok = (q == 'insert' and cs and c <= {'>' if d == 2 else '<', '='}) or hs and hh <= {-1, -2}
                j(ok or False, 'a double rotation only when the inner grandchild is the deeper one', lambda: 'order %s, heights %s; %s' % (''.join(sorted(c)), sorted(hh), facts(st)))
                j(len(rots) == 2 and first[1] == ('rotate_left' if d == 2 else 'rotate_right') and eqs(first[2][0], ch), 'the child is rotated first, outwards', lambda: str([r[1][1] for r in rots]))
                w = [e for e in links if eqs(e[1], fld(N, side))]
                j(len(w) == 1 and type(w[0][2]) is tuple and w[0][2][:2] == ('call', first[1]), 'the rotated child is put back below the node', lambda: '%d' % len(w))
                links = [e for e in links if not eqs(e[1], fld(N, side))]
            # the result takes the place of the node
            if contradicts(st, N):
                continue
            res = [e for e in links if type(e[2]) is tuple and e[2][:2] == ('call', last_[1]) and eqs(e[2][2], N)]
            if j(len(res) == 1, 'the result of the rotation takes the place of the node', lambda: '%s' % [short(e[1]) + ' := ' + short(e[2]) for e in links]):
                loc = res[0][1]
                if loc == root:
                    j(no_parent(st, pops[0]) or False, 'only a node without parent is replaced at the root', lambda: facts(st))
                else:
                    f = loc[2].split('::')[-1]
                    par = loc[1]
                    okp = type(par) is tuple and par[0] == 'm' and par[1][0] == 'E' and par[1][1] == pops[0][1] and eqs(par[1][2], mk('-', pops[0][2], 1))
                    j(okp or None, 'the parent is the node passed before', lambda: short(par))
                    isl = childis(st, par, '_left', N)
                    isr = childis(st, par, '_right', N)
                    good = isl if f == '_left' else (isr or isl is False)
                    j(good or False, 'the result replaces the node on its own side', lambda: f + '; ' + facts(st))
        if leaves:
            same_h = [v for k, v in st.facts.items() if k[0] == '==' and any(isf(x, N, '_height') for x in k[1:3])]
            j(same_h == [True] or bool(rots) and q == 'insert' or False, 'going up ends early only where the height did not change', lambda: facts(st))


def contradicts(st, N):
    """the path says N is neither child of its parent (an assertion's shadow)"""
    n = [k for k, v in st.facts.items() if not v and k[0] == '==' and any(eqs(x, N) for x in k[1:3])]
    return len(n) >= 2


def no_parent(st, pop):
    i = pop[2]
    if st.decide(mk('==', i, 0)) is True:
        return True
    for k, v in st.facts.items():
        if v and k[0] == '==' and 0 in k[1:3]:
            t = k[1] if k[2] == 0 else k[2]
            if type(t) is tuple and t[0] == 'm' and t[1][0] == 'E' and eqs(t[1][2], mk('-', i, 1)):
                return True
            if eqs(t, i):
                return True
    return False


def childis(st, par, f, N):
    a = strip(mf(par, f))
    n = strip(N)
    for k, v in st.facts.items():
        if k[0] == '==' and {strip(k[1]), strip(k[2])} == {a, n}:
            return v
    return None


# ------------------------------------------------------------ remove
def remove(j, q, eng, outs, C):
    root = ('F', THIS, REC + '::_root')
    ds = descent(C)
    main = [(k, n) for k, n in ds if any(order(st, n)[1] for st, _ in C.iters.get(k, []))]
    if len(main) != 1:
        j(None, 'the search goes down one side', '%d descents found' % len(main))
        j.flush()
        return
    k, n = main[0]
    for e in C.entries[k]:
        v = e.store.get(('L', n[2], k[0]))
        j(tri(e, v, ('m', root, 0)), 'the search starts at the root', lambda: short(v))
        for a in C.vecs:
            j(same(e, C.vsize(e, ('&', ('F', THIS, a))), 0) or False, 'the list of nodes passed starts empty', lambda: facts(e))
    for st, ev in C.iters.get(k, []):
        nx = st.store.get(('L', n[2], k[0]))
        if not eqs(nx, n):
            step(j, st, n, nx)
        ps = [e for e in ev if e[0] == 'push']
        j(len(ps) == 1 and (eqs(ps[0][2], n) or (None if fuzzy(ps[0][2], (n,)) else False)), 'every node passed is remembered', lambda: '%d pushes' % len(ps))
    succ = [(k2, s) for k2, s in ds if k2 != k]
    for k2, s in succ:
        for e in C.entries[k2]:
            v = e.store.get(('L', s[2], k2[0]))
            j(isf(v, n, '_right') or (None if fuzzy(v, (n,)) else False), 'the replacement is the smallest entry of the right subtree', lambda: 'starts at ' + short(v))
        for st, ev in C.iters.get(k2, []):
            nx = st.store.get(('L', s[2], k2[0]))
            j(isf(nx, s, '_left') or (None if fuzzy(nx, (s,)) else False), 'the replacement is the smallest entry of the right subtree', lambda: 'goes to ' + short(nx))
            ps = [e for e in ev if e[0] == 'push']
            j(len(ps) == 1 and eqs(ps[0][2], s) or None, 'every node passed is remembered', lambda: '%d pushes' % len(ps))
    for st, ret in outs:
        ev = st.cl[0]
        dels = [(i, e) for i, e in enumerate(ev) if e[0] == 'delete']
        if ret == 0:
            nn = is0(st, n)
            j(nn or False, 'an entry is reported absent only at the end of the search', lambda: facts(st))
            j(not dels, 'nothing is freed when the entry is absent')
            continue
        c, said = order(st, n)
        j(c <= {'='} or False, 'only the given entry is removed', lambda: facts(st))
        cut = [i for i, e in enumerate(ev) if e[0] == 'L' and e[1:] not in [k] + [x for x, _ in succ]]
        pre = ev[:cut[0]] if cut else ev
        links = [(i, e) for i, e in enumerate(pre) if e[0] == 'w' and (e[1] == root or e[1][0] == 'F' and e[1][2] in (NODE + '::_left', NODE + '::_right'))]
        if not j(len(dels) == 1, 'one node is freed', lambda: '%d freed' % len(dels)):
            continue
        di, dn = dels[0][0], dels[0][1][1]
        nulls = {e[1][2].split('::')[-1] for i, e in links if e[1][0] == 'F' and eqs(e[1][1], dn) and e[2] == 0 and i < di}
        l0, r0 = is0(st, mf(dn, '_left')), is0(st, mf(dn, '_right'))
        j(('_left' in nulls or l0 is True) and ('_right' in nulls or r0 is True), 'the freed node no longer owns subtrees', lambda: '%s cleared' % sorted(nulls))
        real = [e for i, e in links if not (e[1][0] == 'F' and eqs(e[1][1], dn))]
        if eqs(dn, n):
            left, right = is0(st, mf(n, '_left')), is0(st, mf(n, '_right'))
            j(left or right or False, 'a node with two subtrees is not cut out', lambda: facts(st))
            if j(len(real) == 1, 'the freed node is unlinked once', lambda: '%d' % len(real)):
                loc, v = real[0][1], real[0][2]
                okv = (v == 0 and left and right) or left and isf(v, n, '_right') or right and isf(v, n, '_left')
                j(bool(okv) or (None if fuzzy(v, (n,)) else False), 'its only subtree takes its place', lambda: short(v))
                place(j, st, loc, root, n, ev, pre)
        else:
            s = dn
            cp = {f: [e[2] for e in pre if e[0] == 'w' and e[1] == fld(n, f)] for f in ('_key', '_data')}
            for f in cp:
                j(bool(cp[f]) and isf(cp[f][-1], s, f), 'the replacement\'s entry moves into the node of the removed one', lambda: '%s: %s' % (f, [short(x) for x in cp[f]]))
            j(is0(st, mf(s, '_left')) or False, 'the replacement is the smallest entry of the right subtree', lambda: facts(st))
            if j(len(real) == 1, 'the freed node is unlinked once', lambda: '%d' % len(real)):
                loc, v = real[0][1], real[0][2]
                j(isf(v, s, '_right') or (None if fuzzy(v, (s,)) else False), 'its only subtree takes its place', lambda: short(v))
                place(j, st, loc, root, s, ev, pre)
        j(len([e for e in pre if e[0] == 'pop']) == 1 or None, 'the freed node leaves the list of nodes passed')
    fixup(j, q, eng, outs, C, k, *[x for x, _ in succ])
    j.flush('one node is freed', 'only the given entry is removed')


def place(j, st, loc, root, n, ev, pre):
    """loc is the link that led to n"""
    push = [e for e in pre if e[0] == 'push' and eqs(e[2], n)]
    if not push:
        j(None, 'the link that led to the node is the one changed')
        return
    N = push[-1][3]
    if loc == root:
        one = any(v and k[0] == '==' and eqs(k, mk('==', mk('+', N, 1), 1)) for k, v in st.facts.items()) or st.decide(mk('==', N, 0)) is True or \
            any(v and k[0] == '==' and 0 in k[1:3] and has(k, lambda t: t[0] == 'm' and t[1][0] == 'E') and not has(k, lambda t: t[0] == 'm' and t[1][0] == 'F') for k, v in st.facts.items())
        eqr = any(v and k[0] == '==' and {strip(k[1]), strip(k[2])} == {strip(n), strip(('m', root, 0))} for k, v in st.facts.items())
        j(one or eqr or False, 'the root changes only when the removed node was the root', lambda: facts(st))
        return
    f = loc[2].split('::')[-1]
    par = loc[1]
    okp = type(par) is tuple and par[0] == 'm' and par[1][0] == 'E' and eqs(par[1][2], mk('-', N, 1))
    j(okp or None, 'the parent is the node passed before', lambda: short(par))
    isl, isr = childis(st, par, '_left', n), childis(st, par, '_right', n)
    good = isl if f == '_left' else (isr or isl is False)
    j(good or False, 'the link that led to the node is the one changed', lambda: f + '; ' + facts(st))


# ------------------------------------------------------------ best fit
def best(j, q, eng, outs, C):
    root = ('F', THIS, REC + '::_root')
    ds = descent(C)
    if len(ds) != 1:
        j(None, 'the search goes down one side', '%d descents found' % len(ds))
        j.flush()
        return
    k, n = ds[0]
    its = C.iters.get(k, [])
    cands = {l for st, _ in its for l, v in st.store.items() if l[0] == 'L' and l[1] != n[2] and eqs(v, n)}
    vals = {l for st, _ in its for l, v in st.store.items() if l[0] == 'L' and isf(v, n, '_data')}
    if len(cands) + len(vals) != 1:
        j(None if len(cands) + len(vals) > 1 else None, 'the smallest larger entry so far is remembered', '%d candidates' % len(cands))
        j.flush()
        return
    bl = list(cands or vals)[0]
    bv = ('lv', n[1], bl[1])
    for e in C.entries[k]:
        j(tri(e, e.store.get(('L', n[2], k[0])), ('m', root, 0)), 'the search starts at the root')
        j(same(e, e.store.get(bl), 0), 'no candidate at the beginning', lambda: short(e.store.get(bl)))
    for st, ev in its:
        nx = st.store.get(('L', n[2], k[0]))
        step(j, st, n, nx, data=False) if not eqs(nx, n) else None
        c, said = order(st, n, False)
        b = st.store.get(bl)
        if isf(nx, n, '_left'):
            j(eqs(b, n) or isf(b, n, '_data') or (None if fuzzy(b, (n, bv)) else False), 'the smallest larger entry so far is remembered', lambda: short(b))
        elif isf(nx, n, '_right'):
            j(eqs(b, bv) or (None if fuzzy(b, (n, bv)) else False), 'smaller entries are no candidates', lambda: short(b))
        j(c & {'='} == set() or None, 'an exact match ends the search')
    for st, ret in outs:
        if is0(st, n):
            z = is0(st, bv)
            if z and ret == 0:
                j(True, 'without candidate there is no answer')
            else:
                j(isf(ret, bv, '_data') or eqs(ret, bv) and bool(vals) or (None if fuzzy(ret, (bv,)) else False), 'the candidate is the answer', lambda: short(ret))
        else:
            c, said = order(st, n, False)
            if ret == 0 or not isf(ret, n, '_data'):
                j(None if fuzzy(ret, (n, bv)) else False, 'an exact match is the answer', lambda: short(ret) + '; ' + facts(st))
            else:
                j(c <= {'='} or False, 'only an exact match ends the search early', lambda: facts(st))
    j.flush('the candidate is the answer')


# ------------------------------------------------------------ node queries
def height(j, q, eng, outs, C):
    j.flush()


def balq(j, q, eng, outs, C):
    for st, ret in outs:
        B, said = heights(st, mf(THIS, '_left'), mf(THIS, '_right'))
        subs = {}
        for s in ('_left', '_right'):
            ch = mf(THIS, s)
            v = [x for k, x in st.facts.items() if eqs(k, mk('==', ('call', 'is_balanced', ch), 0))]
            subs[s] = True if is0(st, ch) else (not v[0]) if v else (None if not (type(ret) is tuple and eqs(ret, ('call', 'is_balanced', ch))) else 'ret')
        if ret == 0:
            j(not (B & {-1, 0, 1}) or False in subs.values() or False, 'a tree is called unbalanced only if some node is', lambda: facts(st))
        else:
            j(B <= {-1, 0, 1} and all(v in (True, 'ret') for v in subs.values()) or (None if fuzzy(ret) else False), 'a tree is called balanced only if every node is', lambda: facts(st))
    j.flush()


def bstq(j, q, eng, outs, C):
    for st, ret in outs:
        subs = {}
        for s, w in (('_left', '<'), ('_right', '>')):
            ch = mf(THIS, s)
            v = [x for k, x in st.facts.items() if eqs(k, mk('==', ('call', 'is_bst', ch), 0))]
            c, said = cmps(st, mf(ch, '_key'), mf(THIS, '_key'), mf(ch, '_data'), mf(THIS, '_data'))
            rec = (not v[0]) if v else ('ret' if type(ret) is tuple and eqs(ret, ('call', 'is_bst', ch)) else None)
            subs[s] = (True if is0(st, ch) else rec, c, w, is0(st, ch))
        if ret == 0:
            j(any(r is False or not z and not (c & {w, '='}) for r, c, w, z in subs.values()) or None, 'a tree is called unordered only if it is', lambda: facts(st))
        else:
            j(all(r in (True, 'ret') and (z or c <= {w, '='}) for r, c, w, z in subs.values()) or (None if fuzzy(ret) else False), 'a tree is called ordered only if it is', lambda: facts(st))
    j.flush()
