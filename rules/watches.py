"""S04: propagation looks at every clause watching a falsified literal, and leaves each of them satisfied, re-watched, implied, or in conflict."""
from rules.solver import *
from rules.clauses import eq0, short_facts, NMS, UND_, TRUE_, FALSE_, evalt, sub


class PC(SC):
    keepfacts = True
    keeplocals = True


def check(P, E, rep):
    R = Sol(P)
    for mode in ('NCB', 'CB', 'LSCB', 'GB'):
        watched(P, E, R, rep, mode)
        binary(P, E, R, rep, mode)
        lead(P, E, R, rep, mode)
    quick(P, E, R, rep)
    for mode in ('NCB', 'CB', 'LSCB'):
        best(P, E, R, rep, 'advanced_level_replacement', 'level', mode)
    best(P, E, R, rep, 'advanced_graph_replacement', 'count', 'GB')
    lists(P, E, R, rep)


# ------------------------------------------------------------ one path over one watched clause
class Px:
    """literals of the clause under examination by role, and what the path knows about them"""

    def __init__(self, R, st, ev, W, idx, c1):
        self.R, self.st, self.ev, self.c1 = R, st, ev, c1
        self.ent = ('&', ('E', W, idx, ''))
        self.cl = ('m', ('F', self.ent, REC + '::TSwatch::cl'), 0)
        self.l = [lit_at(R, self.cl, 0), lit_at(R, self.cl, 1)]
        self.lits = self.l[0][1][1]
        self.k = {}
        self.eq = None
        for f, v in st.facts.items():
            if f[0] == '==':
                for n in (0, 1):
                    if eqs(f[1], self.l[n]) and eqs(f[2], c1) or eqs(f[2], self.l[n]) and eqs(f[1], c1):
                        self.eq = (n == 0) == v
                    elif eqs(f[1], self.l[n]) and self.kind_(strip(f[2])) == 'other' or eqs(f[2], self.l[n]) and self.kind_(strip(f[1])) == 'other':
                        self.eq = (n == 0) != v
        self.val, stamp = {}, {}
        for f, v in st.facts.items():
            t = eq0(f)
            if type(t) is tuple and t[0] == 'call' and t[1].startswith('napsat::Tlit::') and t[1].split('::')[-1] in NMS:
                k = self.kind(t[2])
                if k is None or stamp.setdefault(k, t[3:]) != t[3:]:
                    continue
                w = NMS[t[1].split('::')[-1]]
                s = self.val.get(k, {UND_, TRUE_, FALSE_})
                self.val[k] = s - {w} if v else s & {w}

    def dead(self):
        return any(not v for v in self.val.values())

    def iscl(self, t):
        return eqs(t, self.cl)

    def kind(self, t):
        s = strip(t)
        if s not in self.k:
            self.k[s] = self.kind_(s)
        return self.k[s]

    def kind_(self, s):
        if type(s) is not tuple:
            return None
        if s == strip(self.c1):
            return 'c1'
        if s[0] == 'm' and s[1][0] == 'F' and s[1][2].endswith('TSwatch::block') and eqs(s[1][1], self.ent):
            return 'blk'
        for n in (0, 1):
            if s == strip(self.l[n]):
                return 'l%d' % n if self.eq is None else 'c1' if self.eq == (n == 0) else 'other'
        if s[0] == '^':
            fl, work = [], [s]
            while work:
                x = work.pop()
                if type(x) is tuple and x[0] == '^':
                    work += list(x[1:])
                else:
                    fl.append(x)
            if sorted(map(str, fl)) == sorted(map(str, [strip(self.l[0]), strip(self.l[1]), strip(self.c1)])):
                return 'other'
            if sorted(map(str, fl)) == sorted(map(str, [strip(self.l[0]), strip(self.l[1]), strip(('call', '~lit', self.c1))])):
                return None
        if s[0] == 'm' and s[1][0] == 'D':
            p = s[1][1]
            if type(p) is tuple and p[0] == 'r' and p[-1] == REC + '::quick_replacement':
                return 'quick'
            if type(p) is tuple and p[0] == 'call' and p[1].startswith(REC + '::advanced_'):
                return 'adv'
            if type(p) is tuple and p[0] == 'iter' and p[1] == self.lits:
                return self.kind(('m', ('E', self.lits, p[2], ''), 0))
        if s[0] == 'm' and s[1][0] == 'E' and eqs(s[1][1], self.lits):
            return 'elem'
        return None

    def varkind(self, t):
        """role of the literal whose variable record is addressed"""
        x = strip(t)
        if type(x) is tuple and x[0] == '&' and x[1][0] == 'E' and x[1][1] == strip(self.R.v('_vars')):
            v = x[1][2]
            if type(v) is tuple and v[:2] == ('call', 'napsat::Tlit::var'):
                if eqs(('call', '~lit', v[2]), self.c1):
                    return 'c1'
                return self.kind(v[2])
        return None

    def fieldkind(self, t, f):
        if type(t) is tuple and t[0] in ('m', '&') and t[1][0] == 'F' and t[1][2].endswith('TSvar::' + f):
            return self.varkind(t[1][1])
        return None

    def cmps(self):
        for f, v in self.st.facts.items():
            if f[0] in ('<', '==') and len(f) == 3:
                a, b = self.fieldkind(f[1], 'level'), self.fieldkind(f[2], 'level')
                if a and b:
                    yield f[0], a, b, v

    def leq(self, a, b):
        """the level of literal a is at most that of b on this path (None: not decided)"""
        if a == b:
            return True
        import itertools
        cs = list(self.cmps())
        ks = sorted({x for c in cs for x in c[1:3]} | {a, b})
        if len(ks) > 5:
            return None
        seen = set()
        for o in itertools.product(range(len(ks)), repeat=len(ks)):
            g = dict(zip(ks, o))
            if all(((g[x] < g[y]) if op == '<' else (g[x] == g[y])) == v for op, x, y, v in cs):
                seen.add(g[a] <= g[b])
        return seen.pop() if len(seen) == 1 else None

    def within(self, a, b, fld):
        """the chunks of a are among the chunks / cross chunks of b on this path"""
        for f, v in self.st.facts.items():
            t = eq0(f)
            if type(t) is tuple and t[0] == 'call' and t[1] in ('bitset::operator<=', 'bitset::operator>='):
                x, y = (t[2], t[3]) if t[1].endswith('<=') else (t[3], t[2])
                if self.fieldkind(x, 'chunks') == a and self.fieldkind(y, fld) == b:
                    return not v
        return None

    def known(self, k):
        return self.val.get(k, {UND_, TRUE_, FALSE_})

    def content(self, upto, n):
        """role of the n-th literal of the clause at that point of the path"""
        r, wild = None, False
        for e in self.ev[:upto]:
            if e[0] == 'w' and e[1][0] == 'E' and eqs(e[1][1], self.lits):
                if e[1][2] == n:
                    r = e[2]
            elif e[0] == 'w' and e[1][0] == 'D' and type(e[1][1]) is tuple and e[1][1][0] == 'iter' and eqs(e[1][1][1], self.lits) and e[1][1][2] == n:
                r = e[2]
        return self.l[n] if r is None else r

    def calls(self, name):
        return [(i, e[2]) for i, e in enumerate(self.ev) if e[0] == 'call' and e[1] == name]


def satisfied_ok(px, mode, moved):
    """a literal of the clause is known true and cannot be undone while the watched literal stays false"""
    for a in ('blk', 'other', 'quick', 'l0', 'l1'):
        if px.known(a) != {TRUE_}:
            continue
        if mode in ('NCB', 'CB'):
            return True
        if mode == 'LSCB':
            if px.leq(a, 'c1') or a == 'other' and px.leq(a, 'adv'):
                return True
        else:
            if not moved and (px.within(a, 'c1', 'cross_chunks') or px.within(a, 'c1', 'chunks')):
                return True
            if a == 'other' and px.within(a, 'adv', 'chunks'):
                return True
    return False


def opaque(st):
    return any(has(f, lambda t: t[0] in ('app', 'u') or t[0] == 'r' and 'quick' not in str(t)) for f in st.facts)


def watched(P, E, R, rep, mode):
    with rep.guard('clauses watching a literal [%s]' % mode):
        r = Run(P, E, R, rep, 'propagate_lit', cls=PC, mode=mode, proof=False, tracker=False, observer=False, stats=False)
        j = J(rep, 'clauses watching a literal [%s]' % mode, r.where)
        c1 = ('call', '~lit', r.p(0))
        W = ('&', ('E', R.v('_watches'), c1, ''))
        main = idx = None
        for l in loops(r):
            for st, ev in l.iters:
                for t in find(tuple(st.facts) + tuple(ev), lambda t: t[0] == 'E' and eqs(t[1], W) and l.own(t[2])):
                    if main is None or main is l:
                        main, idx = l, idx or t[2]
        if main is None:
            j(None, 'every watched clause is examined', 'no loop over the watch list of the falsified literal recognised')
            j.flush()
            return

        def ix(t):
            return t[2] if type(t) is tuple and t[0] == 'iter' and eqs(t[1], W) else t
        size = ('call', 'std::size', W)
        ends = [lv for lv in lvars(main) if {strip(ix(x)) for x in main.init(lv)} == {strip(size)}]
        j({ix(x) for x in main.init(idx)} == {0} or (False if all(type(ix(x)) is int for x in main.init(idx)) else None), 'every watched clause is examined', lambda: 'starts at %s' % main.init(idx))
        end = ends[0] if len(ends) == 1 else None
        j(end is not None or None, 'every watched clause is examined', 'end of the list not recognised')
        if end is None:
            j.flush()
            return
        bound = lambda st: [v for f, v in st.facts.items() if f[0] == '<' and eqs(ix(f[1]), idx) and eqs(ix(f[2]), end) or f[0] == '==' and {strip(ix(f[1])), strip(ix(f[2]))} == {strip(idx), strip(end)} and not v]
        for st, ev in main.iters:
            step(j, R, st, ev, W, idx, c1, mode, main, end, ix)
        n = 0
        for st, ret in r.outs:
            ev = st.cl[0]
            at = [k for k, e in enumerate(ev) if e[0] == 'L' and e[1:] == main.key]
            if not at:
                # binary clauses first; only a conflict there ends the propagation early
                b = calls(ev, 'propagate_binary_clauses')
                emp = [v for f, v in st.facts.items() if (lambda t: type(t) is tuple and (t == ('call', 'std::size', R.v('_conflicts')) or t[0] == 'lv' and t[-1] == R.q('_conflicts')))(eq0(f))]
                j(b and emp and emp[-1] is False or (None if opaque(st) else False), 'propagation stops early only at a conflict', lambda: short_facts(st))
                continue
            n += 1
            b = calls(ev[:at[0]], 'propagate_binary_clauses')
            j(len(b) == 1 and eqs(b[0][0], r.p(0)) or (None if any(l.key != main.key for l in loops(r)) and not b else False), 'binary clauses are propagated as well', lambda: '%s' % [[short(x) for x in a] for a in b])
            tail = ev[at[0] + 1:]
            done = [v for f, v in st.facts.items() if f[0] == '<' and eqs(ix(f[1]), idx) and eqs(ix(f[2]), end)]
            done += [not v for f, v in st.facts.items() if f[0] == '==' and {strip(ix(f[1])), strip(ix(f[2]))} == {strip(idx), strip(end)}]
            rz = [ix(e[2]) for e in tail if e[0] == 'resize' and eqs(e[1], W)] + [ix(e[2][0]) for e in tail if e[0] == 'vmut' and eqs(e[1], W) and e[2] == 'erase' and False]
            other = any(e[0] in ('vmut', 'pop') and eqs(e[1], W) for e in tail) or any(e[0] == 'lib' for e in tail)
            cur = end
            if any(e[0] == 'call' and e[1] == 'watch_lit' for e in tail):
                cur = mk('-', end, 1)
            good = len(rz) == 1 and eqs(rz[0], cur)
            j(good or (None if other else False), 'clauses no longer watching the literal leave its list', lambda: 'list cut to %s, not %s' % ([short(x) for x in rz], short(cur)))
            if done and not done[-1]:
                continue
            px = Px(R, st, tail, W, idx, c1)
            if px.dead():
                continue
            conflict(j, px, pushes(tail, R.v('_conflicts')), mode, tail)
            if mode == 'GB' and pushes(tail, R.v('_conflicts')):
                cross(j, R, r, px, main, tail)
        if not n:
            j(None, 'every watched clause is examined', 'no exit behind the loop')
        j.flush('every watched clause is examined', 'a clause is passed over only with a true literal', 'an unassigned last literal is implied', 'a falsified clause is recorded as a conflict')


def step(j, R, st, ev, W, idx, c1, mode, main, end, ix):
    px = Px(R, st, ev, W, idx, c1)
    if px.dead():
        return
    ni, ne = ix(main.next(st, idx)), ix(main.next(st, end))
    wl, imp, rei = px.calls('watch_lit'), px.calls('imply_literal'), px.calls('reimply_literal')
    over = [e for e in ev if e[0] == 'w' and e[1][0] == 'E' and eqs(e[1][1], W) and eqs(e[1][2], idx)]
    odd = any(e[0] in ('vmut', 'pop', 'lib') for e in ev)
    if any(e[0] == 'push' and e[1] == R.v('_conflicts') for e in ev):
        j(None, 'propagation stops at a conflict', 'the loop goes on after recording a conflict')
        return
    # the list itself
    if eqs(ni, mk('+', idx, 1)) and eqs(ne, end):
        left = False
    elif eqs(ni, idx) and eqs(ne, mk('-', end, 1)):
        left = True
        back = ('m', ('E', W, mk('-', end, 1), ''), 0)
        j(bool(over) and eqs(over[-1][2], back) or (None if odd else False), 'every watched clause is examined', lambda: 'the last entry is dropped without taking the place of the one removed')
    elif eqs(ni, mk('+', idx, 1)) and eqs(ne, mk('-', end, 1)):
        left = True
        j(False if not odd else None, 'every watched clause is examined', 'the entry moved into the place of a removed one is passed over')
    else:
        j(None, 'every watched clause is examined', 'position %s, end %s' % (short(ni), short(ne)))
        return
    for i, a in wl:
        k = px.kind(a[0])
        j(px.iscl(a[1]) or (None if fuzzy(a[1], (idx,)) else False), 'a clause is watched by a literal that is not false', lambda: 'clause ' + short(a[1]))
    if wl:
        i, a = wl[-1]
        k = px.kind(a[0])
        j(left, 'a clause leaves the list of a literal it no longer watches', lambda: 'kept although watched by %s instead' % short(a[0]))
        at1 = px.content(i, 1)
        j(eqs(at1, a[0]) or eqs(px.content(i, 0), a[0]), 'the new watched literal is among the first two', lambda: 'watches %s, first literals %s, %s' % (short(a[0]), short(px.content(i, 0)), short(at1)))
        back = [e for e in ev if e[0] == 'w' and px.kind(e[2]) == 'c1' and not (e[1][0] == 'E' and eqs(e[1][1], px.lits) and e[1][2] in (0, 1))]
        lib = [e for e in ev if e[0] == 'lib']
        if k in ('quick', 'adv'):
            ok = any(e[1][0] == 'D' and px.kind(('m', e[1], 0)) == k or e[1][0] == 'D' and eqs(('m', e[1], 0), a[0]) for e in back)
            j(ok or (None if lib or back else False), 'no literal of the clause is lost', lambda: 'the replaced literal is not put where the new one was: %s' % [short(e[1]) for e in back])
            j(any(px.kind(px.content(i, n)) == 'other' for n in (0, 1)) or None, 'no literal of the clause is lost', lambda: 'first literals %s, %s' % (short(px.content(i, 0)), short(px.content(i, 1))))
    elif left:
        j(None if odd else False, 'a clause leaves the list of a literal it no longer watches', 'removed from the list but watched by no other literal: ' + short_facts(st))
        return
    # blocker
    for e in ev:
        if e[0] == 'w' and e[1][0] == 'F' and e[1][2].endswith('TSwatch::block') and eqs(e[1][1], px.ent):
            k = px.kind(e[2])
            j(k in ('other', 'quick', 'adv', 'elem', 'l0', 'l1', 'c1', 'blk') or (None if fuzzy(e[2], (idx,)) else False), 'the blocking literal belongs to the clause', lambda: short(e[2]))
    # what the clause demands
    q = px.known('quick')
    if satisfied_ok(px, mode, bool(wl)) and not imp and not rei:
        j(True, 'a clause is passed over only with a true literal')
        return
    if FALSE_ not in q and wl and px.kind(wl[-1][1][0]) == 'quick':
        j(not imp, 'only a clause with all other literals false implies its literal', lambda: short_facts(st))
        return
    if q != {FALSE_}:
        if not imp and not rei:
            j(None if opaque(st) else False, 'a clause is passed over only with a true literal', lambda: 'kept with: ' + short_facts(st))
        else:
            j(None if opaque(st) else False, 'only a clause with all other literals false implies its literal', lambda: short_facts(st))
        return
    o = px.known('other')
    for i, a in imp + rei:
        j(px.kind(a[0]) == 'other' or (None if px.kind(a[0]) in ('l0', 'l1') or fuzzy(a[0], (idx,)) and px.kind(a[0]) is None else False), 'the literal implied is the only one not false', lambda: short(a[0]))
        j(px.iscl(a[1]) or None, 'the clause is the reason of the literal it implies', lambda: short(a[1]))
        k0 = px.kind(px.content(i, 0))
        j(k0 == 'other' or (None if k0 in ('l0', None) else False), 'the implied literal comes first in its reason', lambda: short(px.content(i, 0)))
        second(j, px, i, mode, wl)
    if o == {UND_}:
        j(len(imp) == 1 and not rei, 'an unassigned last literal is implied', lambda: short_facts(st))
    elif o == {TRUE_}:
        j(len(rei) == 1 and not imp or (None if opaque(st) else False), 'a literal implied lower down is considered again', lambda: 'the clause is passed over: ' + short_facts(st))
    elif o == {FALSE_}:
        j(False, 'a falsified clause is recorded as a conflict', lambda: 'the loop goes on: ' + short_facts(st))
    elif UND_ in o:
        j(len(imp) == 1 and o == {UND_} or False, 'an unassigned last literal is implied' if not imp else 'only unassigned literals are implied', lambda: 'possible values %s: %s' % (sorted(o), short_facts(st)))
    else:
        j(False, 'a falsified clause is recorded as a conflict', lambda: 'possible values %s: %s' % (sorted(o), short_facts(st)))


def second(j, px, i, mode, wl):
    """with chronological backtracking the other watched literal is the last one to be undone"""
    if mode == 'NCB':
        return
    t = px.content(i, 1)
    k = px.kind(t)
    want = 'advanced_graph_replacement' if mode == 'GB' else 'advanced_level_replacement'
    same1 = any(f[0] == '==' and v and any(type(x) is tuple and x[:2] == ('call', REC + '::' + want) for x in f[1:]) and any(type(x) is tuple and x[0] == 'iter' and x[2] == 1 for x in f[1:]) for f, v in px.st.facts.items())
    ok = k == 'adv' and has(t, lambda x: x[:2] == ('call', REC + '::' + want)) or k == 'c1' and same1
    j(ok or (None if k is None or opaque(px.st) else False), 'the other watched literal is the latest undone of the false ones', lambda: '%s second: %s' % (short(t), short_facts(px.st)))


def conflict(j, px, ps, mode, tail):
    st = px.st
    o, q = px.known('other'), px.known('quick')
    if not ps:
        j(None if opaque(st) else False, 'propagation stops early only at a conflict', lambda: short_facts(st))
        return
    j(True, 'a falsified clause is recorded as a conflict')
    j(len(ps) == 1 and px.iscl(ps[0][0]) or (None if fuzzy(ps[0][0]) and not has(ps[0][0], lambda t: t[0] == 'lv') else False), 'the conflict recorded is the clause examined', lambda: '%s' % [short(p[0]) for p in ps])
    j(o == {FALSE_} and q == {FALSE_} or (None if opaque(st) else False), 'a conflict has only false literals', lambda: 'other watched literal %s, replacement %s: %s' % (sorted(o), sorted(q), short_facts(st)))
    n = len(tail)
    a, b = px.content(n, 0), px.content(n, 1)
    ka, kb = px.kind(a), px.kind(b)
    j(len({ka, kb} & {'other'}) == 1 or (None if None in (ka, kb) or ka[0] == 'l' else False), 'the watched literals of a conflict come first', lambda: '%s, %s' % (short(a), short(b)))
    top = [k for k in (ka, kb) if k != 'other']
    if mode != 'NCB' and top:
        i = 1 if kb == top[0] else 0
        t = (a, b)[i]
        fake = Px.__new__(Px)
        fake.__dict__.update(px.__dict__)
        want = 'advanced_graph_replacement' if mode == 'GB' else 'advanced_level_replacement'
        same1 = any(f[0] == '==' and v and any(type(x) is tuple and x[:2] == ('call', REC + '::' + want) for x in f[1:]) for f, v in st.facts.items())
        j(top[0] == 'adv' and has(t, lambda x: x[:2] == ('call', REC + '::' + want)) or top[0] == 'c1' and same1 or (None if opaque(st) else False),
          'the other watched literal is the latest undone of the false ones', lambda: '%s: %s' % (short(t), short_facts(st)))
    if mode in ('CB', 'LSCB') and ka and kb:
        # with the replacement staying in place its level is read through the pointer
        alias = {'adv'} if any(k == 'c1' for k in (ka, kb)) else set()
        z = px.leq(kb, ka)
        if z is None and alias:
            z = px.leq('adv' if kb == 'c1' else kb, 'adv' if ka == 'c1' else ka)
        j(z or (None if opaque(st) else False), 'the highest literal of a conflict comes first', lambda: '%s before %s: %s' % (short(a), short(b), short_facts(st)))


def cross(j, R, r, px, main, tail):
    """graph backtracking: a conflict ties its watched literals to the decisions of all the others"""
    got = set()
    for l in loops(r):
        if l.key == main.key:
            continue
        for st, ev in l.iters:
            b = [e for e in ev if e[0] == 'bits' and e[1] == 'operator|=']
            p2 = Px(R, st, [], px.ent[1][1], px.ent[1][2], px.c1)
            for e in b:
                tgt = e[2]
                src = e[3][0] if e[3] else None
                if type(tgt) is tuple and tgt[1][0] == 'F' and tgt[1][2].endswith('cross_chunks') and type(src) is tuple and src[1][0] == 'F' and src[1][2].endswith('TSvar::chunks'):
                    lit = [x[2] for x in find(src, lambda x: x[:2] == ('call', 'napsat::Tlit::var'))]
                    if lit and p2.kind(lit[0]) == 'elem':
                        i = strip(lit[0])[1][2]
                        if l.own(i) and l.init(i) <= {0, 1, 2} and eqs(l.next(st, i), mk('+', i, 1)):
                            got.add(p2.varkind(tgt[1][1]))
    j({'other'} <= got and len(got) >= 2, 'a conflict ties its watched literals to all decisions it depends on', lambda: '%s' % got)


# ------------------------------------------------------------ binary clauses
def binary(P, E, R, rep, mode):
    with rep.guard('binary clauses watching a literal [%s]' % mode):
        r = Run(P, E, R, rep, 'propagate_binary_clauses', cls=PC, mode=mode, proof=False, tracker=False, observer=False, stats=False)
        j = J(rep, 'binary clauses watching a literal [%s]' % mode, r.where)
        c1 = ('call', '~lit', r.p(0))
        W = ('&', ('E', R.v('_binary_watches'), c1, ''))
        main = idx = None
        for l in loops(r):
            for st, ev in l.iters:
                for t in find(tuple(st.facts) + tuple(ev), lambda t: t[0] == 'E' and eqs(t[1], W) and l.own(t[2])):
                    if main is None or main is l:
                        main, idx = l, idx or t[2]
        if main is None:
            j(None, 'every binary clause is examined', 'no loop over the list of the falsified literal recognised')
            j.flush()
            return
        ix = lambda t: t[2] if type(t) is tuple and t[0] == 'iter' and eqs(t[1], W) else t
        j({ix(x) for x in main.init(idx)} == {0} or (False if all(type(ix(x)) is int for x in main.init(idx)) else None), 'every binary clause is examined', lambda: 'starts at %s' % main.init(idx))
        for st, ev in main.iters:
            px = Px(R, st, ev, W, idx, c1)
            j(eqs(ix(main.next(st, idx)), mk('+', idx, 1)) or (None if fuzzy(main.next(st, idx), (idx,)) else False), 'every binary clause is examined', lambda: short(main.next(st, idx)))
            two(j, R, px, ev, mode, False)
        for st, ret in r.outs:
            ev = st.cl[0]
            at = [k for k, e in enumerate(ev) if e[0] == 'L' and e[1:] == main.key]
            if not at:
                j(None, 'every binary clause is examined', short_facts(st))
                continue
            done = None
            for f, v in st.facts.items():
                if f[0] == '==' and any(eqs(ix(x), idx) for x in f[1:]) and any(has(x, lambda t: t[:2] == ('call', 'std::size')) for x in f[1:]):
                    done = v
                elif f[0] == '<' and eqs(ix(f[1]), idx) and has(f[2], lambda t: t[:2] == ('call', 'std::size')):
                    done = not v
            if done:
                continue
            px = Px(R, st, ev[at[0] + 1:], W, idx, c1)
            if not px.dead():
                j(bool(pushes(ev[at[0] + 1:], R.v('_conflicts'))) or (None if opaque(st) else False), 'propagation stops early only at a conflict', lambda: short_facts(st))
            two(j, R, px, ev[at[0] + 1:], mode, True)
        j.flush('every binary clause is examined', 'an unassigned last literal is implied', 'a falsified clause is recorded as a conflict')


def two(j, R, px, ev, mode, out):
    st = px.st
    if px.dead():
        return
    imp, rei = px.calls('imply_literal'), px.calls('reimply_literal')
    ps = pushes(ev, R.v('_conflicts'))
    o = px.known('blk')
    full = {UND_, TRUE_, FALSE_}
    if o == full:
        o = px.known('other')
    hid = None if opaque(st) else False
    isb = lambda t: px.kind(t) in ('blk', 'other')
    for i, a in imp + rei:
        j(isb(a[0]) or (None if px.kind(a[0]) in ('l0', 'l1') else False), 'the literal implied is the only one not false', lambda: short(a[0]))
        j(px.iscl(a[1]) or None, 'the clause is the reason of the literal it implies', lambda: short(a[1]))
        k0 = px.kind(px.content(i, 0))
        j(k0 in ('blk', 'other') or (False if k0 == 'c1' or k0 in ('l0',) else None), 'the implied literal comes first in its reason', lambda: short(px.content(i, 0)))
        k1 = px.kind(px.content(i, 1))
        j(k1 == 'c1' or (False if k1 in ('blk', 'other', 'l1') else None), 'no literal of the clause is lost', lambda: short(px.content(i, 1)))
    if ps:
        j(out, 'propagation stops at a conflict', '') if False else None
        j(o == {FALSE_} or hid, 'a conflict has only false literals', lambda: 'possible values %s: %s' % (sorted(o), short_facts(st)))
        j(len(ps) == 1 and px.iscl(ps[0][0]) or None, 'the conflict recorded is the clause examined', lambda: short(ps[0][0]))
        n = len(ev)
        a, b = px.content(n, 0), px.content(n, 1)
        ka, kb = px.kind(a), px.kind(b)
        if ka and kb:
            j({ka, kb} in ({'blk', 'c1'}, {'other', 'c1'}, {'l0', 'l1'}), 'no literal of the clause is lost', lambda: '%s, %s' % (short(a), short(b)))
            if mode in ('CB', 'LSCB'):
                j(px.leq(kb, ka) or hid, 'the highest literal of a conflict comes first', lambda: '%s before %s: %s' % (short(a), short(b), short_facts(st)))
        else:
            j(None, 'no literal of the clause is lost', '%s, %s' % (short(a), short(b)))
    if o == {UND_}:
        j(len(imp) == 1 and not rei and not ps or hid, 'an unassigned last literal is implied', lambda: short_facts(st))
    elif o == {FALSE_}:
        j(len(ps) == 1 and not imp and not rei or hid, 'a falsified clause is recorded as a conflict', lambda: short_facts(st))
    elif o == {TRUE_}:
        j(not imp and not ps or hid, 'only unassigned literals are implied', lambda: short_facts(st))
        k = 'blk' if TRUE_ in px.known('blk') and px.known('blk') != full else 'other'
        if mode in ('NCB', 'CB'):
            return
        low = (px.leq(k, 'c1') if mode == 'LSCB' else px.within(k, 'c1', 'cross_chunks') or px.within(k, 'c1', 'chunks'))
        j(len(rei) == 1 or low or hid, 'a literal implied lower down is considered again', lambda: 'the clause is passed over: ' + short_facts(st))
    else:
        if imp or ps:
            j(hid, 'only unassigned literals are implied' if imp else 'a conflict has only false literals', lambda: 'possible values %s: %s' % (sorted(o), short_facts(st)))
        else:
            j(hid, 'a falsified clause is recorded as a conflict' if FALSE_ in o else 'an unassigned last literal is implied', lambda: 'possible values %s: %s' % (sorted(o), short_facts(st)))


# ------------------------------------------------------------ what propagation of a literal starts from
def lead(P, E, R, rep, mode):
    if mode != 'GB':
        return
    with rep.guard('start of propagation [%s]' % mode):
        r = Run(P, E, R, rep, 'propagate', cls=PC, mode=mode, proof=False, tracker=False, observer=False, stats=False)
        j = J(rep, 'start of propagation [%s]' % mode, r.where)
        n = 0
        for evs in [ev for l in loops(r) for st, ev in l.iters] + [st.cl[0] for st, ret in r.outs]:
            for i, e in enumerate(evs):
                if e[0] == 'call' and e[1] == 'propagate_lit':
                    n += 1
                    lit = e[2][0]
                    rec = ('&', ('E', R.v('_vars'), vart(lit), ''))
                    ok = False
                    for b in evs[:i]:
                        if b[0] == 'bits' and type(b[2]) is tuple and b[2][1][0] == 'F' and b[2][1][2].endswith('cross_chunks') and eqs(b[2][1][1], rec):
                            if b[1] == 'operator|=' or b[1] == 'operator=':
                                ok = type(b[3][0]) is tuple and b[3][0][1][0] == 'F' and b[3][0][1][2].endswith('TSvar::chunks') and eqs(b[3][0][1][1], rec) or ok and b[1] == 'operator|='
                            elif b[1] == 'clear':
                                ok = False
                    j(ok, 'the decisions of the literal are among those its propagation is tied to', lambda: '%s' % [(b[1], short(b[2])) for b in evs[:i] if b[0] == 'bits'])
        if not n:
            j(None, 'the decisions of the literal are among those its propagation is tied to', 'no propagation found')
        j.flush()


# ------------------------------------------------------------ searching a replacement
def quick(P, E, R, rep):
    with rep.guard('search of a literal not false'):
        r = Run(P, E, R, rep, 'quick_replacement', cls=PC, proof=False, tracker=False, observer=False, stats=False)
        j = J(rep, 'search of a literal not false', r.where)
        cl = r.p(0)
        L = lit_at(R, cl, 0)[1][1]
        size, look = csize(R, cl), mem(field(R, cl, 'last_looked'))
        at = lambda i: ('m', ('E', L, i, ''), 0)

        def pos(t):
            if type(t) is tuple and t[0] == 'iter' and eqs(t[1], L):
                return t[2]
            if type(t) is tuple and t[0] == '&' and t[1][0] == 'E' and eqs(t[1][1], L):
                return t[1][2]
            return None

        def false(st, i):
            for f, v in st.facts.items():
                t = eq0(f)
                if type(t) is tuple and t[:1] == ('call',) and t[1].startswith('napsat::Tlit::') and t[1].split('::')[-1] in NMS and eqs(t[2], at(i)):
                    w = NMS[t[1].split('::')[-1]]
                    if w == FALSE_:
                        return not v
                    if not v:
                        return False
            return None

        scans = {}
        for l in loops(r):
            for st, ev in l.iters:
                for f in st.facts:
                    for t in find(f, lambda t: t[0] == 'E' and eqs(t[1], L) and l.own(t[2])):
                        scans[l.key] = (l, t[2])
        for l, i in scans.values():
            for st, ev in l.iters:
                j(false(st, i) or None if false(st, i) is not False else False, 'the search goes on only after a false literal', lambda: short_facts(st))
                j(eqs(l.next(st, i), mk('+', i, 1)) or (None if fuzzy(l.next(st, i), (i,)) else False), 'every literal is looked at', lambda: short(l.next(st, i)))
        for st, ret in r.outs:
            p = pos(ret)
            if p is None:
                j(None, 'the answer is a literal not false, or the second when there is none', short(ret))
                continue
            if false(st, p) is False:
                inb = any(f[0] == '<' and v and eqs(f[1], p) for f, v in st.facts.items())
                lo = True
                for l, i in scans.values():
                    if i == p:
                        lo = all(type(x) is not int or x >= 1 for x in l.init(i))
                j(inb and lo or None if inb else False, 'the answer is a literal not false, or the second when there is none', lambda: short_facts(st))
                continue
            if p != 1:
                j(None if fuzzy(p) and not scans else False, 'the answer is a literal not false, or the second when there is none', lambda: short(ret) + ': ' + short_facts(st))
                continue
            rng, ok = [], True
            for l, i in scans.values():
                if not any(e[0] == 'L' and e[1:] == l.key for e in st.cl[0]):
                    continue
                b = [f[2] for f, v in st.facts.items() if f[0] == '<' and not v and eqs(f[1], i)]
                b += [x for f, v in st.facts.items() if f[0] == '==' and v and any(eqs(y, i) for y in f[1:]) for x in f[1:] if not eqs(x, i)]
                if b:
                    rng.append(({strip(x) for x in l.init(i)}, strip(b[0])))
                    ok = ok and not any(fuzzy(x) for x in rng[-1][0])
                else:
                    ok = False
            ends = {strip(i): b[1] for (l, i), b in zip([x for x in scans.values() if any(e[0] == 'L' and e[1:] == x[0].key for e in st.cl[0])], rng)} if ok or rng else {}
            rng = [({ends.get(x, x) for x in a}, b) for a, b in rng]
            ok = bool(rng) and not any(fuzzy(x) for a, b in rng for x in a)
            reach = {0, 1, 2}
            for _ in range(len(rng) + 1):
                reach |= {b for a, b in rng if a <= reach}
            j(strip(size) in reach or (None if not ok or not rng else False), 'every literal is looked at', lambda: 'ranges searched: %s' % [([short(x) for x in a], short(b)) for a, b in rng])
        j.flush('every literal is looked at', 'the answer is a literal not false, or the second when there is none', 'the search goes on only after a false literal')
        # a clause stored anew starts its searches behind the implied literal
        r = Run(P, E, R, rep, 'internal_add_clause', mode='CB', proof=False, tracker=False, observer=False, stats=False)
        j = J(rep, 'search of a literal not false', r.where)
        for st, ret in r.outs:
            ev = st.cl[0]
            if not calls(ev, 'watch_lit'):
                continue
            a = calls(ev, 'watch_lit')[0][1]
            w = [e[2] for e in ev if e[0] == 'w' and eqs(e[1], field(R, a, 'last_looked'))]
            j(bool(w) and w[-1] in (1, 2) or (None if w and type(w[-1]) is not int else False), 'the search position of a new clause is within it', lambda: '%s' % w)
        j.flush('the search position of a new clause is within it')


def best(P, E, R, rep, name, what, mode):
    with rep.guard('search of the latest undone literal [%s]' % mode):
        r = Run(P, E, R, rep, name, cls=PC, mode=mode, proof=False, tracker=False, observer=False, stats=False)
        j = J(rep, 'search of the latest undone literal [%s]' % mode, r.where)
        A, n = r.p(0), r.p(1)

        def pos(t):
            if type(t) is tuple and t[0] == 'iter' and eqs(t[1], A):
                return t[2]
            if type(t) is tuple and t[0] == '&' and t[1][0] == 'E' and eqs(t[1][1], A):
                return t[1][2]
            return None

        def measure(t):
            """position of the literal whose level / number of decisions the term is"""
            s = strip(t)
            if what == 'level':
                if not (type(s) is tuple and s[0] == 'm' and s[1][0] == 'F' and s[1][2].endswith('TSvar::level')):
                    return None
                s = s[1][1]
            elif not (type(s) is tuple and s[:2] == ('call', 'bitset::count') and has(s, lambda x: x[0] == 'F' and str(x[2]).endswith('TSvar::chunks'))):
                return None
            v = [x for x in find(s, lambda x: x[0] == 'E' and eqs(x[1], A))]
            if v:
                return v[0][2]
            d = [x for x in find(s, lambda x: x[0] == 'D')]
            return ('*', d[0][1]) if d else None
        main = cur = None
        for l in loops(r):
            for st, ev in l.iters:
                for f in st.facts:
                    for t in find(f, lambda t: measure(t) is not None):
                        m = measure(t)
                        if l.own(m) and all(eqs(pos(l.next(s, m)) if pos(l.next(s, m)) is not None else l.next(s, m), mk('+', m, 1)) for s, _ in l.iters):
                            main, cur = l, m
        if mode == 'NCB' and what == 'level':
            for st, ret in r.outs:
                p = pos(ret)
                if p is None and main is not None:
                    continue
                j(p == 1 or (None if p is None else False), 'without chronological backtracking the literal stays', lambda: short(ret))
            j.flush()
            return
        if main is None:
            j(None, 'the literal found is the latest undone', 'no loop compares the literals')
            j.flush()
            return
        init = {pos(x) if pos(x) is not None else x for x in main.init(cur)}
        j(init <= {1, 2} and bool(init) or (False if all(type(x) is int for x in init) and init else None), 'every literal is compared', lambda: 'from %s' % init)
        hi = None
        for st, ret in r.outs:
            if any(e[0] == 'L' and e[1:] == main.key for e in st.cl[0]):
                p = pos(ret)
                hi = ret if main.own(ret) else p if main.own(p) else None
                stop = [v for f, v in st.facts.items() if f[0] == '<' and (eqs(pos(f[1]), cur) or eqs(f[1], cur)) and (eqs(pos(f[2]), n) or eqs(f[2], n))]
                near = any(f[0] == '<' and not v and has(f[1], lambda t: t == cur) and not eqs(f[1], cur) and not eqs(pos(f[1]), cur) or f[0] == '<' and has(f[2], lambda t: t[:1] == ('-',) and len(t) > 1 and eqs(t[1], n)) for f, v in st.facts.items())
                j(stop and not stop[-1] or (None if not stop and not near else False), 'every literal is compared', lambda: short_facts(st))
            else:
                j(pos(ret) == 1 or None, 'the literal found is the latest undone', short(ret))
        if hi is None:
            j(None, 'the literal found is the latest undone', 'candidate not recognised')
            j.flush()
            return
        vals = [lv for lv in lvars(main) - {cur, hi} if all(type(x) is tuple and measure(x) is not None for x in main.init(lv))]
        val = vals[0] if len(vals) == 1 else None
        i0 = {pos(x) if pos(x) is not None else x for x in main.init(hi)}
        j(i0 == {1} or (False if all(type(x) is int for x in i0) else None), 'the first candidate is the second literal', lambda: '%s' % i0)
        if val is not None:
            j({measure(x) for x in main.init(val)} == i0 or None, 'the first candidate is the second literal', lambda: '%s' % [short(x) for x in main.init(val)])
        ishi = lambda t: t == val or measure(t) == hi or measure(t) == ('*', hi) or measure(t) == ('*', ('iter', A, hi))
        for st, ev in main.iters:
            nh = main.next(st, hi)
            nh = pos(nh) if pos(nh) is not None else nh
            dec = None
            for f, v in st.facts.items():
                if f[0] != '<':
                    continue
                if ishi(f[1]) and measure(f[2]) == cur:
                    dec = ('>' if v else '<=')
                elif ishi(f[2]) and measure(f[1]) == cur:
                    dec = ('<' if v else '>=')
            if dec is None:
                j(None if opaque(st) or val is None and fuzzy(nh, (hi, cur)) else False, 'the literal found is the latest undone', lambda: 'candidate %s without comparison: %s' % (short(nh), short_facts(st)))
                continue
            took, kept_ = eqs(nh, cur), eqs(nh, hi)
            ok = took if dec == '>' else kept_ if dec == '<' else took or kept_
            j(ok if took or kept_ else None, 'the literal found is the latest undone', lambda: 'next literal %s the candidate: keeps %s' % (dec, short(nh)))
            if val is not None:
                nv = main.next(st, val)
                j((measure(nv) == cur if took else nv == val) or (None if fuzzy(nv, (val,)) and measure(nv) is None else False), 'the level remembered is that of the candidate', lambda: short(nv))
        j.flush('the literal found is the latest undone', 'every literal is compared')


# ------------------------------------------------------------ watch lists
def entry(v):
    """(clause, blocker) of a watch list entry value"""
    if type(v) is tuple and v[:2] == ('obj', '?'):
        return (v + (None, None))[2:4]
    if type(v) is tuple and v[0] == 'obj':
        d = {}
        for x in find(v, lambda x: len(x) == 2 and type(x[0]) is tuple or len(x) == 2 and type(x[0]) is str and '::' in x[0]):
            k = x[0] if type(x[0]) is str else x[0][-1]
            if type(k) is str:
                d[k.split('::')[-1]] = x[1]
        return d.get('cl'), d.get('block')
    return None, None


def lists(P, E, R, rep):
    with rep.guard('watch lists'):
        r = Run(P, E, R, rep, 'watch_lit', proof=False, tracker=False, observer=False, stats=False)
        j = J(rep, 'watch lists', r.where)
        lit, cl = r.p(0), r.p(1)
        for st, ret in r.outs:
            ps = [e for e in st.cl[0] if e[0] == 'push']
            j(len(ps) == 1 and eqs(ps[0][1], ('&', ('E', R.v('_watches'), lit, ''))) or (None if any(e[0] in ('vmut', 'lib') for e in st.cl[0]) else False), 'a watched clause is in the list of the literal', lambda: '%s' % [short(e[1]) for e in ps])
            for e in ps:
                c, b = entry(e[2])
                j(None if c is None else eqs(c, cl), 'a watched clause is in the list of the literal', lambda: short(e[2]))
                x0, x1 = lit_at(R, cl, 0), lit_at(R, cl, 1)
                xs = sorted(map(str, map(strip, (x0, x1, lit))))
                fl, work = [], [b]
                while work:
                    t = work.pop()
                    if type(t) is tuple and t[0] == '^':
                        work += list(t[1:])
                    else:
                        fl.append(t)
                inc = eqs(b, x0) or eqs(b, x1) or sorted(map(str, map(strip, fl))) == xs or type(b) is tuple and b[0] == 'm' and b[1][0] == 'E' and eqs(b[1][1], x0[1][1])
                j(None if b is None else inc or (None if fuzzy(b) else False), 'the blocking literal belongs to the clause', lambda: short(b))
        j.flush('a watched clause is in the list of the literal')
        r = Run(P, E, R, rep, 'watch_lit_bin', proof=False, tracker=False, observer=False, stats=False)
        j = J(rep, 'watch lists', r.where)
        cl = r.p(0)
        x = [lit_at(R, cl, 0), lit_at(R, cl, 1)]
        for st, ret in r.outs:
            ps = [e for e in st.cl[0] if e[0] == 'push']
            got = set()
            for e in ps:
                c, b = entry(e[2])
                for n in (0, 1):
                    if eqs(e[1], ('&', ('E', R.v('_binary_watches'), x[n], ''))):
                        got.add(n)
                        j(None if c is None else eqs(c, cl), 'a binary clause is in the lists of both literals', lambda: short(c))
                        j(None if b is None else eqs(b, x[1 - n]) or (None if fuzzy(b) else False), 'a binary clause lists the other literal with each', lambda: short(b))
            j(got == {0, 1} and len(ps) == 2 or (None if any(e[0] in ('vmut', 'lib') for e in st.cl[0]) else False), 'a binary clause is in the lists of both literals', lambda: '%s' % [short(e[1]) for e in ps])
        j.flush('a binary clause is in the lists of both literals')
        r = Run(P, E, R, rep, 'stop_watch', proof=False, tracker=False, observer=False, stats=False)
        j = J(rep, 'watch lists', r.where)
        lit, cl = r.p(0), r.p(1)
        W = ('&', ('E', R.v('_watches'), lit, ''))
        for st, ret in r.outs:
            er = [e for e in st.cl[0] if e[0] == 'vmut' and e[2] == 'erase' or e[0] == 'pop']
            if len(er) == 1 and er[0][0] == 'pop':
                mv = [e for e in st.cl[0] if e[0] == 'w' and e[1][0] == 'E' and eqs(e[1][1], W) and has(e[2], lambda t: t[0] == 'E' and eqs(t[1], W))]
                j(bool(mv) or (None if any(e[0] == 'lib' for e in st.cl[0]) else False), 'the entry removed is that of the clause', 'the last entry is removed')
            j(len(er) == 1 and eqs(er[0][1], W) or (None if any(e[0] == 'lib' for e in st.cl[0]) else False), 'the clause leaves the list of the literal', lambda: '%s' % [short(e[1]) for e in er])
            if len(er) == 1 and er[0][0] == 'vmut' and len(er[0][3]) == 1:
                p = er[0][3][0]
                p = p[2] if type(p) is tuple and p[0] == 'iter' else None
                hit = out = None
                for f, v in st.facts.items():
                    if f[0] == '==' and any(eqs(t, cl) for t in f[1:]) and has(f, lambda t: t[0] == 'E' and eqs(t[1], W) and eqs(t[2], p)) and has(f, lambda t: t[0] == 'F' and str(t[2]).endswith('TSwatch::cl')):
                        hit = v
                    if f[0] == '<' and not v and eqs(f[1], p):
                        out = True
                j(hit or out or (None if p is None or fuzzy(p) and hit is None and False else False), 'the entry removed is that of the clause', lambda: short_facts(st))
        for l in loops(r):
            for st, ev in l.iters:
                for lv in lvars(l):
                    j(l.init(lv) == {0} and eqs(l.next(st, lv), mk('+', lv, 1)) or None, 'the clause leaves the list of the literal', lambda: '%s %s' % (l.init(lv), short(l.next(st, lv))))
        j.flush('the clause leaves the list of the literal')
