"""O01: the command-line options set what they document, and only that."""
import itertools
from rules.learn import *
from rules.proof import PC

NS = 'napsat::'
OREC = NS + 'options'
SUPP = {('G', NS + 'suppress_warning'): 1, ('G', NS + 'suppress_info'): 1}

# flags, field, kind, value without the flag
DOC = [
    ('--chronological-backtracking -cb', 'chronological_backtracking', 'bool', 0),
    ('--lazy-strong-chronological-backtracking -lscb', 'lazy_strong_chronological_backtracking', 'bool', 0),
    ('--graph-backtracking -gb', 'graph_backtracking', 'bool', 0),
    ('--lazy-chunk-merging -lcm', 'lazy_chunk_merging', 'bool', 0),
    ('--eager-chunk-merging -ecm', 'eager_chunk_merging', 'bool', 0),
    ('--backtrack-smallest-chunk -bsc', 'backtrack_smallest_chunk', 'bool', 0),
    ('--backtrack-first-chunk -bfc', 'backtrack_first_chunk', 'bool', 0),
    ('--delete-clauses -del', 'delete_clauses', 'bool', 1),
    ('--ignore-unused-variables -iuv', 'ignore_unused_variables', 'bool', 0),
    ('--interactive -i', 'interactive', 'bool', 0),
    ('--observing -o', 'observing', 'bool', 0),
    ('--check-invariants -c', 'check_invariants', 'bool', 0),
    ('--save-state-on-interrupt -ssi', 'save_state_on_interrupt', 'bool', 1),
    ('--statistics -stat', 'print_stats', 'bool', 0),
    ('--live-statistics -live-stat', 'print_live_stats', 'bool', 0),
    ('--proof -bp', 'build_proof', 'bool', 0),
    ('--check-proof -cp', 'check_proof', 'bool', 0),
    ('--print-proof -pp', 'print_proof', 'bool', 0),
    ('--record-dependencies', 'record_dependencies', 'bool', 0),
    ('--var-activity-decay', 'var_activity_decay', 'double', 0.95),
    ('--clause-elimination-multiplier', 'clause_elimination_multiplier', 'double', 2.0),
    ('--clause-activity-multiplier', 'clause_activity_multiplier', 'double', 1.001),
    ('--clause-activity-threshold-decay', 'clause_activity_threshold_decay', 'double', 0.85),
    ('--restarts', 'restarts', 'bool', 1),
    ('--backtrack-learned -bl', 'backtrack_learned', 'bool', 0),
    ('--use-max-approximate-cost-estimation -max-approx-cost', 'use_max_approximate_cost_estimation', 'bool', 0),
    ('--use-sum-approximate-cost-estimation -sum-approx-cost', 'use_sum_approximate_cost_estimation', 'bool', 0),
    ('--use-vsids-approximate-cost-estimation -vsids-approx-cost', 'use_vsids_approximate_cost_estimation', 'bool', 0),
    ('--chunk-level-penalty', 'chunk_level_penalty', 'double', 0.01),
    ('--backtrack-possibilities-limit', 'backtrack_possibilities_limit', 'double', 1000.0),
    ('--sync-weight', 'sync_weight', 'double', 8.0),
    ('--timeout -t', 'timeout', 'double', -1.0),
    ('--conflict-limit -cl', 'conflict_limit', 'double', -1.0),
]
NEEDS = {('backtrack_learned', 'graph_backtracking', 1), ('lazy_chunk_merging', 'graph_backtracking', 1), ('eager_chunk_merging', 'graph_backtracking', 1),
         ('eager_chunk_merging', 'lazy_chunk_merging', 0), ('backtrack_smallest_chunk', 'graph_backtracking', 1), ('backtrack_first_chunk', 'graph_backtracking', 1),
         ('use_max_approximate_cost_estimation', 'graph_backtracking', 1), ('use_sum_approximate_cost_estimation', 'graph_backtracking', 1),
         ('use_sum_approximate_cost_estimation', 'use_max_approximate_cost_estimation', 0), ('use_vsids_approximate_cost_estimation', 'graph_backtracking', 1),
         ('use_vsids_approximate_cost_estimation', 'use_max_approximate_cost_estimation', 0), ('use_vsids_approximate_cost_estimation', 'use_sum_approximate_cost_estimation', 0)}
OVER = {('lazy_strong_chronological_backtracking', 'chronological_backtracking'), ('backtrack_first_chunk', 'backtrack_smallest_chunk')}
RANGES = {'clause_activity_threshold_decay': (0.0, 1.0, 1)}


class OC(PC):
    """options are opaque objects; their own operations leave events"""
    fixed = SUPP
    opaque = ()
    tag = True
    keeplocals = True
    lists = False

    class R:
        vecs = ()

    def __init__(self, R=None, **kw):
        SC.__init__(self, R or OC.R(), **kw)
        self.vecs = tuple(NS + x for x in ('Option::_aliases', 'Option::_subsumed', 'Option::_subsumed_by', 'Option::_requirements')) if self.lists else ()
        self.anch = set()

    def setup(self, eng, st):
        for l, v in self.fixed.items():
            st.store[l] = v

    def inline(self, eng, fid, qn, depth):
        q = qn.split('<')[0]
        return not q.startswith('sentinel') and not any(q == NS + o for o in self.opaque)

    def call2(self, eng, st, c):
        q = c.qn.split('<')[0]
        short_ = q[len(NS):]
        if short_ in self.opaque:
            args = tuple(eng.unloc(st, x) for x in c.args)
            if '::add_' in short_:
                args = args[:1] + tuple(c.args[1:2]) + args[2:]
            if short_ == 'OptionParser::parse':
                args = tuple(c.args)
            self.emit(st, 'call', short_, (c.this,) + args)
            r = self.handled(eng, st, c, short_, args)
            if r is not None:
                return r
            f = eng.P.funcs.get(c.fid)
            if f is not None and f.const:
                return [(st, eng.callterm(st, c.qn, c.this, args, c.fid))]
            return None
        return PC.call2(self, eng, st, c)

    def handled(self, eng, st, c, name, args):
        return None


def run(P, E, rep, qn, pred=None, **kw):
    fs = [f for f in P.fn(NS + qn) if pred is None or pred(f)]
    if not fs:
        raise AnalysisError('anchor vanished: ' + NS + qn)
    return Run(P, E, OC.R(), rep, qn, func=fs[0], cls=kw.pop('cls', OC), **kw)


def check(P, E, rep):
    for n, f in (('taking a value', consume), ('reading the command line', parse), ('resolving conflicts', resolve), ('the options', table), ('derived options', derived),
                 ('the option objects', objects), ('the environment', environment), ('the options of the observer', sentinel), ('owners', owners)):
        with rep.guard(n):
            f(P, E, rep)


# ------------------------------------------------------------ concrete representatives
class Val:
    """value of a term for one representative input: token list of parameter 0, position, and further terms"""

    def __init__(self, st, tokens=None, pos=None, more=(), maps=()):
        self.st, self.tokens, self.pos, self.more, self.maps = st, tokens, pos, dict(more), dict(maps)

    def vec(self, t):
        return self.tokens is not None and t == ('p', 0, '')

    def mapof(self, t):
        if type(t) is tuple and t[:1] == ('&',) and type(t[1]) is tuple:
            return self.maps.get(str(t[1][1]).split('::')[-1]) if t[1][0] == 'G' else self.maps.get(t[1][1]) if t[1][0] == 'L' else None
        return None

    def __call__(self, t):
        if type(t) in (int, bool):
            return int(t)
        if type(t) is not tuple or not t:
            return None
        s = strip(t)
        if s in self.more:
            return self.more[s]
        k = t[0]
        if k == 'str':
            try:
                return float(t[1]) if t[1] and t[1][0] in '0123456789.-' else t[1]
            except ValueError:
                return t[1]
        if k == 'cast':
            return self(t[-1])
        if k == 'ctor' and 'basic_string' in str(t[1]):
            return self(t[2]) if len(t) > 2 and not (type(t[2]) is tuple and t[2][:2] == ('ctor', 'std::allocator')) else ''
        if k == 'fv' and len(t) > 2:
            b, i = self(t[1]), self(t[2])
            return None if type(b) is not str or i is None else ord(b[i]) if i < len(b) else 0
        if k == 'm':
            l = t[1]
            if l[0] == 'E':
                i = self(l[2])
                if i is None:
                    return None
                if self.vec(l[1]):
                    return self.tokens[i] if i < len(self.tokens) else None
                b = self.obj(l[1])
                return None if type(b) is not str else ord(b[i]) if i < len(b) else 0
            if l == ('D', ('p', 1, ''), 'unsigned int'):
                return self.pos
            return None
        if k == 'call':
            fn, a = str(t[1]).split('::')[-1], [x for x in t[2:] if not (type(x) is tuple and x[:1] == ('v',))]
            if fn == 'size' and a:
                if self.vec(a[0]):
                    return len(self.tokens)
                b = self.obj(a[0])
                return len(b) if type(b) is str else None
            if fn in ('operator==', 'operator!=') and len(a) == 2:
                x, y = self.obj(a[0]), self.obj(a[1])
                return None if type(x) is not str or type(y) is not str else int((x == y) == (fn == 'operator=='))
            if fn in ('find', 'count', 'contains') and a and self.mapof(a[0]) is not None:
                x = self(a[1])
                return None if x is None else int(x in self.mapof(a[0])) if fn != 'find' else ('it', x) if x in self.mapof(a[0]) else ('end',)
            if fn == 'end' and a and self.mapof(a[0]) is not None:
                return ('end',)
            if fn == 'front' and a:
                b = self.obj(a[0])
                return ord(b[0]) if b else 0 if b == '' else None
            return None
        xs = [self(x) for x in t[1:]]
        if k == '==' and len(xs) == 2 and None not in xs:
            return int(xs[0] == xs[1])
        if any(type(x) is not int for x in xs):
            return None
        return evt((k,) + tuple(xs), {})

    def obj(self, t):
        """value of an object given by its address or its contents"""
        if type(t) is tuple and t[:1] == ('&',):
            v = self.st.store.get(t[1])
            return self(v) if v is not None else self(('m', t[1], 0))
        return self(t)

    def ok(self):
        """the path can be taken for this input"""
        return all(v is None or bool(v) == b for f, b in self.st.facts.items() for v in [self(f)])


NEXT = (None, '', '-x', 'on', 'off', 'word', '1.5', 'yes', 'On')


def tokens_for(nxt, tok='--flag'):
    return ['--other', tok] + ([nxt] if nxt is not None else [])


def try_covers(P, f, rep, need=('std::invalid_argument', 'std::out_of_range')):
    """conversions that can throw lie in a block whose handlers take both of their exceptions"""
    conv = {'stod', 'stoi', 'stof', 'stol', 'stoul', 'stoll', 'stoull', 'stold'}
    par = {}
    for i, n in f.nodes.items():
        for c in n.get('c', ()):
            par.setdefault(c, i)
    bad, n = [], 0
    for i, x in f.nodes.items():
        if x['k'] == 'CallExpr' and str(x.get('qn', '')).split('<')[0].split('::')[-1] in conv and 'std' in str(x.get('qn', '')):
            n += 1
            left = set(need)
            c, p = i, par.get(i)
            while p is not None and left:
                if f.nodes[p]['k'] == 'CXXTryStmt' and f.nodes[p]['c'][0] == c:
                    for h in f.nodes[p]['c'][1:]:
                        t = str(f.nodes[h].get('caught', '')).replace('const ', '').replace('&', '').strip()
                        if t in ('', '...', 'void', 'null', 'std::exception', 'std::logic_error', 'exception', 'logic_error'):
                            left = set()
                        left -= {t, 'std::' + t}
                c, p = p, par.get(p)
            if left:
                bad.append('%s escapes from line %s' % (', '.join(sorted(left)), x.get('l')))
    return n, bad


# ------------------------------------------------------------ values
def consume(P, E, rep):
    for cls in ('Bool', 'Double', 'String'):
        with rep.guard('a %s option' % cls.lower()):
            r = run(P, E, rep, cls + 'Option::consume')
            j = J(rep, 'a %s option' % cls.lower(), r.where)
            stor = ('F', THIS, NS + cls + 'Option::_storage')
            ix = ('D', ('p', 1, ''), 'unsigned int')
            for nxt in NEXT:
                tk = tokens_for(nxt)
                seen = False
                for st, ret in r.outs:
                    V = Val(st, tk, 1)
                    if not V.ok():
                        continue
                    ev = st.cl[0]
                    w = writes(ev, stor)
                    n = V(r.fin(st, ix))
                    rv = V(ret)
                    seen = True
                    what = lambda: 'followed by %s: storage %s, position %+d, answer %s' % ('nothing' if nxt is None else repr(nxt), [short(x) for x in w] or 'kept', (n or 0) - 1, short(ret))
                    none = nxt is None or nxt == '' or nxt[0] == '-'
                    RU = 'the value is taken from the token after the flag'
                    if len(w) > 1:
                        j(None, RU, what)
                        continue
                    if cls == 'Bool':
                        want = (1, 1, 1) if none else (1, 2, 1) if nxt == 'on' else (0, 2, 1) if nxt == 'off' else (None, 1, 0)
                        v = None if not w else V(w[0])
                        good = None if w and v is None else (v == want[0] if w else want[0] is None)
                    elif none:
                        want = (None, 1, 0)
                        good = not w
                    elif cls == 'String':
                        want = (nxt, 2, 1)
                        good = False if not w else None if V(w[0]) is None else V(w[0]) == nxt
                    else:
                        # the conversion decides; a token refused is left to the handlers
                        want = (None, 2, 1) if w else (None, 1, 0)
                        c = list(walk(w[0], lambda t: t[0] == 'call' and str(t[1]).split('<')[0].split('::')[-1] in ('stod', 'stof', 'stold', 'strtod'))) if w else []
                        good = (V.obj(c[0][2]) == nxt if c and w[0] == c[0] else None) if w else not fin_ok(st)
                        if w and str(c[0][1]).endswith('stof'):
                            good = False
                    j(good, RU, what)
                    j(None if n is None else n == want[1], 'exactly the tokens used are skipped', what)
                    j(None if rv is None else bool(rv) == bool(want[2]), 'the answer tells whether a value was taken', what)
                if not seen:
                    j(None, 'every token is handled', repr(nxt))
                if nxt == '1.5' and cls != 'Bool':
                    j(any(writes(st.cl[0], stor) for st, ret in r.outs if Val(st, tk, 1).ok()), 'a proper value is stored', 'the option never takes ' + nxt)
            j.flush('the value is taken from the token after the flag')
            k, bad = try_covers(P, r.f, rep)
            if cls == 'Double':
                j(not bad if k else None, 'a malformed number does not end the program', '; '.join(bad))
                whole(P, r, j)
            j.flush()


def first(x):
    """the start of a list"""
    x = strip(x)
    return x == 0 or type(x) is tuple and x[0] == 'iter' and x[2] == 0


def fin_ok(st):
    """a path on which the conversion was accepted"""
    return False


def whole(P, r, j):
    """a number followed by anything else is refused: a path that stores compares the characters used with the length"""
    RU = 'a number with trailing characters is refused'
    for st, ret in r.outs:
        w = writes(st.cl[0], ('F', THIS, NS + 'DoubleOption::_storage'))
        if not w:
            continue
        c = list(walk(w[0], lambda t: t[0] == 'call' and str(t[1]).split('<')[0].endswith('stod')))
        used = [a for x in c for a in x[3:4] if a != 0]
        if c and not used:
            j(False, RU, 'line %s: the number of characters used is not asked for' % r.f.where())
        elif not c:
            j(None, RU, short(w[0]))
        else:
            eqn = [f for f, v in st.facts.items() if f[0] == '==' and v and has(f, lambda t: t[0] == 'call' and str(t[1]).endswith('size'))]
            j(True if eqn else None, RU, facts(st))


# ------------------------------------------------------------ reading the tokens
class TC(OC):
    opaque = ('Option::matches', 'Option::consume', 'BoolOption::consume', 'DoubleOption::consume', 'StringOption::consume')


def tokpos(t):
    """position i when t is the token at i"""
    t = strip(t)
    if type(t) is tuple and t[0] == 'm' and t[1][0] == 'E' and t[1][1] == ('p', 0, ''):
        return t[1][2]
    return None


def parse(P, E, rep):
    r = run(P, E, rep, 'OptionParser::parse', cls=TC)
    j = J(rep, 'reading the command line', r.where)
    R1, R2, R3, R4, R5 = ('an option takes its value when its flag is met', 'an option is set at most once', 'what took a value counts as set', 'other tokens are passed over', 'every token is met')
    L = loops(r)
    wset = NS + 'Option::_was_set'
    outer = [l for l in L if any(calls(ev, 'Option::consume') for _, ev in l.iters)]
    if not outer:
        j(None, R1, 'no loop takes values')
        j.flush()
        return
    mq = lambda t: t[0] == 'call' and str(t[1]).split('<')[0] == NS + 'Option::matches'

    def hitsof(st):
        hits = {}
        for f, b in st.facts.items():
            for c in walk(f, mq):
                hits[c[2]] = ((not b) if f[0] == '==' and f[2] == 0 else b, tokpos(c[3]) if len(c) > 3 else None)
        return hits
    pos = {x for l in L for st, _ in l.iters for f in st.facts for c in walk(f, mq) for x in [tokpos(c[3])] if any(o.own(x) for o in outer)}
    # the option found by a loop: nothing, or one that matched
    found = {}
    inner = [l for l in L if l not in outer and any(has(tuple(st.facts), mq) for st, _ in l.iters)]
    for l in inner:
        for v in lvars(l):
            if not l.own(v) or any(x != 0 for x in l.init(v)):
                continue
            ps, good, upd = set(), True, 0
            for st, ev in l.iters:
                n, h = strip(l.next(st, v)), {strip(x): y for x, y in hitsof(st).items()}
                mine = [y for x, y in h.items() if y[0] and any(l.own(t) for t in find(x, lambda t: t[0] == 'lv'))]
                if n == v:
                    if mine and sfact(st, ('==', v, 0)) is not False:
                        good = False
                elif n in h and h[n][0]:
                    ps.add(h[n][1])
                    upd += 1
                else:
                    good = None if good else good
            if upd and good is not None:
                found[v] = (good, ps)
    for v, (good, ps) in found.items():
        j(good, 'the first option that matches is taken', 'an option that matches is passed over')
        pos |= {x for x in ps if any(o.own(x) for o in outer)}
    if len(pos) != 1:
        j(None, R5, str(pos))
        j.flush()
        return
    tp = list(pos)[0]
    for l in outer:
        for st, ev in l.iters:
            cs = calls(ev, 'Option::consume')
            w = [e for e in ev if e[0] == 'w' and e[1][0] == 'F' and e[1][2] == wset]
            if len(cs) > 1:
                j(False, R1, 'one token is given to several options')
                continue
            hits = hitsof(st)
            if cs:
                X = cs[0][0]
                m = hits.get(X)
                if strip(X) in found:
                    m = (True, tp if found[strip(X)][1] == {tp} else None) if sfact(st, ('==', strip(X), 0)) is False else None
                j(None if m is None else m[0], R1, lambda: 'an option that does not match takes a value')
                if m is not None:
                    j(m[1] == tp if m[1] is not None else None, R1, lambda: 'the token compared is not the one at the position')
                was = sfact(st, ('==', ('m', ('F', X, wset), 0), 0))
                j(None if was is None and has_term(st, wset) else bool(was), R2, lambda: text(st))
                isr = lambda t: type(t) is tuple and t[0] == 'r' and 'consume' in str(t)
                ok = [v for f, v in st.facts.items() if f[0] == '==' and f[2] == 0 and isr(f[1])]
                took = None if len(ok) != 1 else not ok[0]
                mine = [e for e in w if strip(e[1][1]) == strip(X)]
                if len(mine) != len(w):
                    j(False, R3, 'another option is marked: ' + text(st))
                elif took is None:
                    j(True if mine and isr(strip(mine[-1][2])) else None if ok or mine and type(mine[-1][2]) is not int else False, R3, lambda: 'set without regard to the answer: ' + text(st))
                else:
                    v = mine[-1][2] if mine else 0
                    j(None if type(v) is not int else bool(v) == took, R3, lambda: text(st))
            else:
                j(not w, R3, 'an option is marked as set without a value')
                t = [x for x, (v, _) in hits.items() if v] + [x for x in found if sfact(st, ('==', x, 0)) is False]
                if not any(sfact(st, ('==', x, 0)) for x in t) and t: # a registered option is an object
                    was = [sfact(st, ('==', ('m', ('F', x, wset), 0), 0)) for x in t]
                    j(False if True in was else True if False in was else None, R1, lambda: 'a matching option is passed over: ' + text(st))
                j(eqt(st, l.next(st, tp), mk('+', tp, 1), {tp}), R4, lambda: 'the next token is skipped: ' + short(l.next(st, tp)))
        j(all(first(x) for x in l.init(tp)) or (False if all(type(x) is int for x in l.init(tp)) else None), R5, lambda: 'reading starts at %s' % [short(x) for x in l.init(tp)])
        for st, ret in r.outs:
            size = [t for f in st.facts for t in walk(f, lambda t: t[0] == 'lv' and str(t[1]).startswith('n') or t[0] == 'call' and str(t[1]).endswith('size'))]
            j(covers(st, tp, size[0]) if size else None, R5, lambda: text(st))
        for st, ev in l.iters:
            if calls(ev, 'Option::consume'):
                n = l.next(st, tp)
                u = strip(n)
                d = None
                if type(u) is tuple and u[0] == '+' and u[2] == 1 and (type(u[1]) is tuple and u[1][0] in ('u', 'r', 'm', 'app') or u[1] == tp):
                    d = True
                elif type(u) is tuple and u[0] in ('u', 'r', 'm'):
                    d = False
                j(d, R4, lambda: 'after a value the position is %s' % short(n))
    for l in inner:
        for st, ev in l.iters:
            v = [x for x in lvars(l)]
            d = [stepof(l, st, x) for x in v]
            j(True if 1 in d else False if d and not {None, '?'} & set(d) else None, 'every option is asked', lambda: str(d))
            if not any(l.own(x) for x in found):
                for x, (hit, _) in hitsof(st).items():
                    if any(l.own(t) for t in find(x, lambda t: t[0] == 'lv')):
                        j(not hit, 'the first option that matches is taken', lambda: text(st))
        for v in lvars(l):
            if any(stepof(l, st, v) == 1 for st, _ in l.iters):
                j(all(first(x) for x in l.init(v)) or None, 'every option is asked', lambda: str(l.init(v)))
    j.flush(R1, R2, R3, R4, R5)


def sfact(st, t):
    t = strip(t)
    for f, b in st.facts.items():
        if strip(f) == t:
            return b
    return None


def has_term(st, q):
    return any(has(f, lambda t: t[0] == 'F' and t[2] == q) for f in st.facts)


def text(st):
    return facts(st)[:300]


# ------------------------------------------------------------ conflicts between options
class RC(OC):
    opaque = tuple(c + 'Option::' + n for c in ('', 'Bool', 'Double', 'String') for n in ('reset_to_default', 'truthy')) + ('DoubleOption::validate_range', 'Option::validate_range')


def truthy(st, X):
    """is the option X known to be active on this path?"""
    r = None
    for f, b in st.facts.items():
        if f[0] == '==' and f[2] == 0 and type(f[1]) is tuple and f[1][0] == 'call' and str(f[1][1]).split('<')[0].endswith('Option::truthy') and strip(f[1][2]) == strip(X):
            r = not b
    return r


def resolve(P, E, rep):
    r = run(P, E, rep, 'OptionParser::resolve', cls=RC)
    j = J(rep, 'resolving conflicts', r.where)
    R1, R2, R3, R4, R5 = ('an overruled option is taken back', 'an option without its requirements is taken back', 'nothing else is taken back', 'the rules are applied until nothing changes',
                          'ranges are checked at the end')
    L = loops(r)
    subs, reqs = NS + 'Option::_subsumed', NS + 'Option::_requirements'
    changed = set()
    # marks left by a loop over the requirements
    flags, bads = {}, {}
    for l in L:
        if not any(any(l.own(x) for x in find(f, lambda t: t[0] == 'lv')) and has(f, lambda t: t[0] == 'F' and t[2] == reqs) for st, _ in l.iters for f in st.facts) and not any(reqterms(l.next(st, v)) for st, _ in l.iters for v in lvars(l)):
            continue
        for v in lvars(l):
            iv = set(l.init(v))
            if not l.own(v) or len(iv) != 1 or type(list(iv)[0]) is not int or any(stepof(l, st, v) == 1 for st, _ in l.iters):
                continue
            g = list(iv)[0]
            verdict, used = True, False
            for st, ev in l.iters:
                n = l.next(st, v)
                T = reqterms(n) | {t for f in st.facts for t in reqterms(f)}
                for v0 in (0, 1):
                    for c in combos(st, T, {v: v0}):
                        x = evt(strip(n), dict(c, **{}))
                        want = v0 if c['ok'] else 1 - g
                        if v0 == 1 - g:
                            want = v0
                        used |= x != v0
                        if x is None:
                            verdict = None if verdict else verdict
                        elif x != want:
                            verdict = False
            if used:
                flags[v], bads[v] = verdict, 1 - g
    for l in L:
        for st, ev in l.iters:
            for c in calls(ev, 'Option::reset_to_default'):
                X = strip(c[0])
                # X is an element of another option's overruled list, or the option itself with a failed requirement
                own = [t for t in walk(X, lambda t: t[0] == 'E' and type(t[1]) is tuple and has(t[1], lambda y: y[0] == 'F' and y[2] == subs))]
                if own:
                    winner = [t[1] for t in walk(X, lambda t: t[0] == 'F' and t[2] == subs)]
                    a, b = truthy(st, winner[0]), truthy(st, X)
                    j(a, R1, lambda: 'an inactive option overrules: ' + text(st))
                    j(bool(b), R3, lambda: 'an inactive option is taken back: ' + text(st))
                else:
                    a = truthy(st, X)
                    j(True if a else None if a is None else False, R3, lambda: text(st))
                    fail = failed(st)
                    if fail is None:
                        fl = [g for f, g in flags.items() if flagval(st, f) is not None]
                        fail = None if len(fl) != 1 else fl[0] if fl[0] is not True else flagval(st, [f for f in flags if flagval(st, f) is not None][0]) == bads[[f for f in flags if flagval(st, f) is not None][0]]
                    j(fail, R2 if fail else R3, lambda: 'no requirement failed: ' + text(st))
                marks_ = [v for l2 in L for v in lvars(l2) if l2.own(v)]
                nz = [v for v in set(marks_) if l.at(st, v[2]) == 1]
                changed |= set(nz)
                j(True if nz else False, R4, lambda: 'taking an option back is not followed by another round: ' + text(st))
    # every pair is looked at: an iteration over a list of overruled options that leaves an active one alone
    for l in L:
        for st, ev in l.iters:
            for f, b in st.facts.items():
                if not (f[0] == '==' and f[2] == 0 and type(f[1]) is tuple and f[1][0] == 'call' and str(f[1][1]).split('<')[0].endswith('Option::truthy')):
                    continue
                X = strip(f[1][2])
                if has(X, lambda t: t[0] == 'F' and t[2] == subs) and not b and not any(strip(c[0]) == X for c in calls(ev, 'Option::reset_to_default')):
                    if any(l.own(v) for v in find(X, lambda t: t[0] == 'lv')):
                        j(False, R1, 'an active option that is overruled stays: ' + text(st))
            # the requirement failed on this path but the option stays
            ownreq = [t for f in st.facts for t in walk(f, lambda t: t[0] == 'F' and t[2] == reqs)]
            scan = any(any(l.own(x) for x in find(f, lambda t: t[0] == 'lv')) and has(f, lambda t: t[0] == 'F' and t[2] == reqs) for f in st.facts)
            if ownreq and not calls(ev, 'Option::reset_to_default') and not (scan and any(l.own(v) for v in flags)):
                j(not failed(st, True), R2, lambda: 'an option without its requirement stays: ' + text(st))
    # an active option's lists are looked through
    for q, RU in ((subs, R1), (reqs, R2)):
        scans = [l for l in L if any(has(tuple(st.facts), lambda t: t[0] == 'F' and t[2] == q) for st, _ in l.iters) and any(any(l.own(x) for x in find(f, lambda t: t[0] == 'lv')) and has(f, lambda t: t[0] == 'F' and t[2] == q) for st, _ in l.iters for f in st.facts)]
        j(True if scans else None, RU, 'no loop over the list')
        for l in scans:
            for v in [v for v in lvars(l) if any(stepof(l, s, v) == 1 for s, _ in l.iters)]:
                j(all(first(x) for x in l.init(v)) or None, RU, lambda: 'the list is read from %s' % [short(x) for x in l.init(v)])
            for st, ev in l.iters:
                d = [stepof(l, st, v) for v in lvars(l)]
                j(True if 1 in d else None, RU, lambda: str(d))
    # the rounds end only when nothing changed
    for st, ret in r.outs:
        rounds = [v for l in L for v in lvars(l) if l.own(v) and any(strip(f) == ('==', v, 0) and b for f, b in st.facts.items())]
        j(True if set(rounds) & changed else None if rounds or not changed else False, R4, lambda: 'the rounds end although an option was taken back: ' + text(st))
        last_ = [i for i, e in enumerate(st.cl[0])]
    for l in L:
        if not any(v in changed for v in lvars(l) if l.own(v)):
            continue
        # the round starts with the mark taken away and the mark is 1 at the start
        vs = [v for v in lvars(l) if l.own(v) and v in changed]
        for v in vs:
            if any(strip(f) == ('==', v, 0) for st, _ in r.outs for f in st.facts):
                j(all(x == 1 for x in l.init(v)) or (False if all(x == 0 for x in l.init(v)) else None), R4, lambda: 'the first round: %s' % [short(x) for x in l.init(v)])
    # ranges
    vr = [(l, st, ev) for l in L for st, ev in l.iters if calls(ev, 'DoubleOption::validate_range')]
    seenr = [l for l in L if any(calls(ev, 'DoubleOption::validate_range') for _, ev in l.iters)]
    j(True if seenr else False, R5, 'no range is checked')
    for l in seenr:
        for st, ev in l.iters:
            if calls(ev, 'DoubleOption::validate_range'):
                continue
            isd = [b for f, b in st.facts.items() if f[0] == '==' and f[2] == 0 and any(l.own(x) for x in find(f, lambda t: t[0] == 'lv')) and not has(f, lambda t: t[0] == 'call' and 'truthy' in str(t[1]))]
            j(True if True in isd else None if not isd else False, R5, lambda: text(st))
    j.flush(R1, R2, R3, R4, R5)


def reqterms(t):
    """the demanded value, and the present one, of a requirement"""
    q = NS + 'Option::_requirements'
    isd = lambda x: x[0] == 'call' and str(x[1]).split('<')[0].endswith('Option::truthy') and has(x, lambda y: y[0] == 'F' and y[2] == q)
    r = set()

    def go(x):
        if type(x) is not tuple:
            return
        if x and isd(x) or x and x[0] == 'm' and has(x, lambda y: y[0] == 'F' and y[2] == q) and x[1][0] == 'F' and str(x[1][2]).endswith(('second', '#1')):
            r.add(x)
            return
        for y in x:
            go(y)
    go(strip(t))
    return r


def combos(st, T, more=()):
    """the values of a requirement that this path allows"""
    T = {strip(t) for t in T}
    d = [t for t in T if t[0] == 'call']
    e = [t for t in T if t[0] == 'm']
    if len(d) > 1 or len(e) > 1:
        return
    for a, b in itertools.product((0, 1), (0, 1)):
        env = dict(more)
        env.update({d[0]: a} if d else {})
        env.update({e[0]: b} if e else {})
        if all(v is None or bool(v) == x for f, x in st.facts.items() for v in [evt(strip(f), env)]):
            env['ok'] = a == b
            yield env


def flagval(st, v):
    for x in (0, 1):
        if sfact(st, ('==', v, 0)) is (x == 0):
            return x
    return None


def failed(st, any_=False):
    """a requirement of an option is known to be unfulfilled (or may be unfulfilled) on this path"""
    T = {t for f in st.facts for t in reqterms(f)}
    if not T:
        return None if not any_ else False
    c = {e['ok'] for e in combos(st, T)}
    if not c:
        return None
    if any_:
        return False in c
    return None if len(c) == 2 else False in c


# ------------------------------------------------------------ the registered options
class BC(OC):
    opaque = tuple('OptionParser::add_' + k for k in ('bool', 'double', 'string')) + ('Option::alias', 'Option::subsumes', 'Option::require', 'DoubleOption::range', 'OptionParser::set_category')

    def handled(self, eng, st, c, name, args):
        if name.startswith('OptionParser::add_'):
            return [(st, ('opt', args[0]))]
        if name == 'OptionParser::set_category':
            return [(st, 0)]
        return [(st, self.ref(c.this))]

    def ref(self, t):
        return t


def text_of(t):
    t = strip(t)
    if type(t) is tuple and t[0] == 'str':
        return t[1]
    if type(t) is tuple and t[0] == 'ctor' and len(t) > 2:
        return text_of(t[2])
    return None


def optof(t):
    x = [y for y in walk(t, lambda t: t[0] == 'opt')]
    return text_of(x[0][1]) if x else None


def number(t):
    if type(t) is tuple and t[0] == 'str':
        t = t[1]
    try:
        return float(t)
    except (TypeError, ValueError):
        return None


def table(P, E, rep):
    r = run(P, E, rep, 'options::build_option_parser', cls=BC)
    j = J(rep, 'the options', r.where)
    R1, R2, R3, R4, R5, R6 = ('every documented flag sets its option', 'no flag belongs to two options', 'options that need others are declared so', 'options that overrule others are declared so',
                              'values out of range are refused', 'without a flag an option has its documented value')
    if len(r.outs) != 1 or loops(r):
        j(None, R1, '%d ways to register the options' % len(r.outs))
    for st, ret in r.outs:
        opts, flags, over, needs, rng = {}, {}, set(), set(), {}
        odd = []
        for e in st.cl[0]:
            if e[0] != 'call':
                continue
            nm, a = e[1], e[2]
            if nm.startswith('OptionParser::add_'):
                f, loc = text_of(a[1]), a[2]
                loc = loc[1] if type(loc) is tuple and loc[0] in ('&', 'loc') else loc
                fld = loc[2].split('::')[-1] if type(loc) is tuple and loc[0] == 'F' and loc[2].startswith(OREC + '::') else None
                if f is None or fld is None:
                    odd.append(short(a[1]) + ' ' + short(a[2]))
                    continue
                opts[f] = (fld, nm.split('_')[-1])
                flags.setdefault(f, []).append(fld)
            elif nm == 'Option::alias':
                o, f = optof(a[0]), text_of(a[1])
                if o not in opts or f is None:
                    odd.append(short(a[0]))
                else:
                    flags.setdefault(f, []).append(opts[o][0])
            elif nm in ('Option::subsumes', 'Option::require'):
                o, p = optof(a[0]), optof(a[1])
                if o not in opts or p not in opts:
                    odd.append(short(a[0]))
                elif nm == 'Option::subsumes':
                    over.add((opts[o][0], opts[p][0]))
                else:
                    needs.add((opts[o][0], opts[p][0], a[2]))
            elif nm == 'DoubleOption::range':
                o = optof(a[0])
                if o in opts:
                    rng[opts[o][0]] = (number(a[1]), number(a[2]), a[3])
                else:
                    odd.append(short(a[0]))
        for fl, fld, kind, dflt in DOC:
            for f in fl.split():
                got = flags.get(f)
                j(None if got is None and odd else got is not None and got[0] == fld, R1, '%s sets %s instead of %s' % (f, got, fld))
            ks = {k for o, (x, k) in opts.items() if x == fld}
            j(None if not ks and odd else ks == {kind}, R1, '%s is registered as %s' % (fld, sorted(ks)))
        for f, g in flags.items():
            j(len(g) == 1, R2, '%s: %s' % (f, g))
        j(None if NEEDS - needs and odd else not NEEDS - needs, R3, 'missing: %s' % sorted(NEEDS - needs))
        known = {d[1] for d in DOC}
        j(not {n for n in needs - NEEDS if n[0] in known and n[1] in known}, R3, 'not documented: %s' % sorted(map(str, needs - NEEDS)))
        j(None if OVER - over and odd else OVER <= over, R4, 'missing: %s' % sorted(OVER - over))
        j(not {n for n in over - OVER if n[0] in known and n[1] in known}, R4, 'not documented: %s' % sorted(map(str, over - OVER)))
        for f, v in RANGES.items():
            g = rng.get(f)
            j(None if g is None and odd else g == v, R5, '%s: %s' % (f, g))
        j(not {f for f in rng if f in known and f not in RANGES}, R5, 'not documented: %s' % sorted(rng))
    for np in (0, 1):
        d = run(P, E, rep, 'options::options', pred=lambda f: len(f.params) == np, cls=DC)
        for st, ret in d.outs[:1]:
            for fl, fld, kind, dflt in DOC:
                w = writes(st.cl[0], ('F', THIS, OREC + '::' + fld))
                v = number(w[0]) if w else None
                j(None if v is None else abs(v - dflt) < 1e-12, R6, '%s is %s' % (fld, short(w[0]) if w else 'not set'))
    j.flush(R1, R2, R3, R4, R5, R6)


# ------------------------------------------------------------ derived values
class DC(OC):
    opaque = ('options::extract_sentinel_tokens', 'options::build_option_parser', 'OptionParser::parse', 'OptionParser::resolve', 'OptionParser::OptionParser')
    fields = ()

    def handled(self, eng, st, c, name, args):
        if name == 'OptionParser::resolve':
            for f in self.fields:
                l = ('F', THIS, OREC + '::' + f)
                eng.write(st, l, ('m', l, 'set'), 'set', notify=False)
        return None


def derived(P, E, rep):
    names = [d[1] for d in DOC]
    r = run(P, E, rep, 'options::options', pred=lambda f: len(f.params) == 1 and 'vector' in f.params[0]['t'], cls=DC, fields=names)
    j = J(rep, 'derived options', r.where)
    R0, R1, R2, R3, R4, R5 = ('the command line is read, then conflicts are resolved', 'at most one backtracking mode is left', 'printing or checking a proof builds it',
                              'statistics need an observer', 'commands make the solver interactive', 'no other option is changed')
    at = lambda f: ('m', ('F', THIS, OREC + '::' + f), 0)
    bools = [d[1] for d in DOC if d[2] == 'bool']
    G = [('chronological_backtracking', 'lazy_strong_chronological_backtracking', 'graph_backtracking'), ('build_proof', 'print_proof', 'check_proof'),
         ('print_stats', 'print_live_stats', 'observing', 'interactive', None)]
    for st, ret in r.outs:
        seq = [e[1].split('::')[-1] for e in st.cl[0] if e[0] == 'call' and e[1].split('::')[-1] in ('build_option_parser', 'parse', 'resolve', 'extract_sentinel_tokens')]
        j([x for x in seq if x != 'extract_sentinel_tokens'] == ['build_option_parser', 'parse', 'resolve'] and 'extract_sentinel_tokens' in seq[:seq.index('parse')], R0, str(seq))
        for c in calls(st.cl[0], 'OptionParser::parse'):
            j(has(c[1], lambda t: t == ('p', 0, '')) or None, R0, short(c[1]))
    cmds = {t for st, _ in r.outs for f in st.facts for t in walk(strip(f), lambda t: t[0] == 'call' and str(t[1]).endswith('size') and has(t, lambda y: y[0] == 'F' and str(y[2]).endswith('commands_file')))}
    for g in G:
        for other in (0, 1):
            for vs in itertools.product((0, 1), repeat=len(g)):
                inp = {b: other if b not in g else None for b in bools}
                if other and 'chronological_backtracking' not in g:
                    inp.update(chronological_backtracking=0, lazy_strong_chronological_backtracking=0)
                inp.update({x: v for x, v in zip(g, vs) if x})
                cmd = vs[-1] if None in g else other
                more = {at(b): v for b, v in inp.items()}
                more.update({c: 3 * cmd for c in cmds})
                want = dict(inp)
                gb, ls = inp['graph_backtracking'], inp['lazy_strong_chronological_backtracking']
                want['chronological_backtracking'] = int((inp['chronological_backtracking'] or ls) and not gb)
                want['lazy_strong_chronological_backtracking'] = int(ls and not gb)
                want['build_proof'] = int(inp['build_proof'] or inp['print_proof'] or inp['check_proof'])
                want['interactive'] = int(inp['interactive'] or cmd)
                if not inp['observing'] and not want['interactive']:
                    want['print_stats'] = want['print_live_stats'] = 0
                seen = False
                for st, ret in r.outs:
                    V = Val(st, more=more)
                    if not V.ok():
                        continue
                    seen = True
                    for b in bools:
                        v = V(r.fin(st, ('F', THIS, OREC + '::' + b)))
                        RU = R1 if b in G[0] else R2 if b == 'build_proof' else R4 if b == 'interactive' else R3 if b.startswith('print_') and 'stats' in b else R5
                        j(None if v is None else bool(v) == bool(want[b]), RU, lambda: '%s is %s for %s%s' % (b, v, [k for k, x in inp.items() if x], ' and commands' if cmd else ''))
                if not seen:
                    j(None, R5, str(vs))
    for d in DOC:
        if d[2] == 'double':
            for st, ret in r.outs:
                j(eqs(r.fin(st, ('F', THIS, OREC + '::' + d[1])), at(d[1])), R5, lambda: '%s: %s' % (d[1], short(r.fin(st, ('F', THIS, OREC + '::' + d[1])))))
    j.flush(R0, R1, R2, R3, R4, R5)


# ------------------------------------------------------------ the objects
def objects(P, E, rep):
    F = lambda n: ('F', THIS, NS + n)
    j = None
    for cls in ('Bool', 'Double', 'String'):
        with rep.guard('a %s option' % cls.lower()):
            r = run(P, E, rep, '%sOption::reset_to_default' % cls)
            j = J(rep, 'a %s option' % cls.lower(), r.where)
            for st, ret in r.outs:
                w = [e for e in st.cl[0] if e[0] == 'w' and e[1][0] == 'F']
                j(len(w) == 1 and w[0][1] == F(cls + 'Option::_storage') and eqs(w[0][2], ('m', F(cls + 'Option::_default'), 0)), 'taking back restores the value before', lambda: str([short(x[2]) for x in w]))
            r = run(P, E, rep, '%sOption::truthy' % cls)
            for st, ret in r.outs:
                want = ('m', F('BoolOption::_storage' if cls == 'Bool' else 'Option::_was_set'), 0)
                j(truth_is(st, ret, want), 'an option is active when it is on or was given', lambda: short(ret))
            fs = [f for f in P.fn(NS + cls + 'Option::' + cls + 'Option') if len(f.params) == 4]
            if fs:
                r = Run(P, E, OC.R(), rep, cls, func=fs[0], cls=OC)
                for st, ret in r.outs:
                    d = r.fin(st, F(cls + 'Option::_default'))
                    s = [e[2] for e in st.cl[0] if e[0] == 'w' and e[1] == F(cls + 'Option::_storage')]
                    bound = r.eng.read(st, F(cls + 'Option::_storage'))
                    j(has(d, lambda t: t == ('p', 1, '')) or has(d, lambda t: t[0] == 'F' and t[2] == NS + cls + 'Option::_storage') or None, 'the value before is remembered', lambda: short(d))
            j.flush()
    r = run(P, E, rep, 'DoubleOption::validate_range')
    j = J(rep, 'a range', r.where)
    D = lambda n: ('m', F('DoubleOption::' + n), 0)
    n = 0
    for has_, x, fatal in itertools.product((0, 1), (1, 2, 3, 4, 5), (0, 1)):
        env = {D('_has_range'): has_, D('_storage'): x, D('_min'): 2, D('_max'): 4, D('_fatal'): fatal}
        stays = [st for st, ret in r.outs if Val(st, more=env).ok()]
        want = not (has_ and fatal and not 2 <= x <= 4)
        j(bool(stays) == want, 'a value out of range ends the program where that is asked for', 'value %s in [2, 4], range %s, fatal %s: the program %s' % (x, has_, fatal, 'goes on' if stays else 'ends'))
    j.flush()
    r = run(P, E, rep, 'DoubleOption::range')
    j = J(rep, 'declaring a range', r.where)
    for st, ret in r.outs:
        for n, v in (('_has_range', 1), ('_min', ('p', 0, '')), ('_max', ('p', 1, '')), ('_fatal', ('p', 2, ''))):
            g = r.fin(st, F('DoubleOption::' + n))
            j(eqs(g, v), 'the range is stored', lambda: '%s is %s' % (n, short(g)))
    j.flush()
    for fn, want in (('Option::alias', lambda st: stored(st, 'Option::_aliases', lambda x: has(x, lambda t: t == ('p', 0, '')))),
                     ('Option::subsumes', lambda st: stored(st, 'Option::_subsumed', lambda x: strip(x) in (('p', 0, ''), ('&', ('D', ('p', 0, ''), ''))))),
                     ('Option::require', lambda st: stored(st, 'Option::_requirements', lambda x: has(x, lambda t: t == ('p', 0, '')) and demanded(x))),
                     ('Option::mark_set', lambda st: [e[2] for e in st.cl[0] if e[0] == 'w' and e[1] == F('Option::_was_set')] == [1])):
        with rep.guard(fn):
            r = run(P, E, rep, fn, lists=True)
            j = J(rep, 'declaring an option', r.where)
            for st, ret in r.outs:
                j(want(st), fn.split('::')[1] + ' is stored', lambda: str([short(e[2]) if len(e) > 2 else '' for e in st.cl[0]])[:200])
            j.flush()
    with rep.guard('matching'):
        r = run(P, E, rep, 'Option::matches')
        j = J(rep, 'matching a flag', r.where)
        for st, ret in r.outs:
            eq = [(not b if f[0] == '==' and f[2] == 0 else b) for f, b in st.facts.items() if has(f, lambda t: t[0] == 'call' and str(t[1]).endswith('operator==')) and has(f, lambda t: t == ('p', 0, ''))]
            j(None if type(ret) is not int else (True in eq) == bool(ret), 'exactly the names of the option match', lambda: '%s; %s' % (short(ret), text(st)))
        for l in loops(r):
            for st, ev in l.iters:
                d = [stepof(l, st, v) for v in lvars(l)]
                j(1 in d or None, 'exactly the names of the option match', str(d))
            for v in lvars(l):
                j(all(first(x) for x in l.init(v)) or None, 'exactly the names of the option match', 'the first name is left out')
        j.flush('exactly the names of the option match')


def stored(st, q, pred):
    """exactly the right entry is appended to the list q of this option"""
    loc = ('&', ('F', THIS, NS + q))
    mine = [e[2] for e in st.cl[0] if e[0] == 'push' and e[1] == loc]
    if not mine:
        odd = [e for e in st.cl[0] if e[0] in ('vmut', 'w') and has(e[1], lambda t: t[0] == 'F' and t[1] == THIS and t[2] == NS + q)]
        return None if odd else False
    vs = [pred(x) for x in mine]
    return (len(mine) == 1 and vs[0]) if None not in vs else None


def demanded(x):
    """the entry holds the demanded value, parameter 1, unchanged"""
    c = []

    def go(t):
        if type(t) is tuple:
            if t and t[0] in ('obj', 'ctor') or t and type(t[0]) is tuple:
                for y in t:
                    go(y)
            elif has(t, lambda y: y == ('p', 1, '')):
                c.append(t)
    go(x)
    if len(c) != 1:
        return None if c else False
    v = [evt(strip(c[0]), {('p', 1, ''): b}) for b in (0, 1)]
    return None if None in v else [bool(b) for b in v] == [False, True]


def truth_is(st, ret, want):
    if eqs(ret, want):
        return True
    if type(ret) is tuple and strip(ret)[0] == 'm' and strip(ret)[1][0] == 'F' and strip(ret)[1][1] == THIS:
        return False
    if type(ret) is int:
        v = holdsx(st, mk('==', want, 0))
        return None if v is None else (not v) == bool(ret)
    vs = [evt(strip(ret), {strip(want): x}) for x in (0, 1)]
    return None if None in vs else [bool(x) for x in vs] == [False, True]


# ------------------------------------------------------------ settings of the environment
ENVB = {'--suppress-warning': 'suppress_warning', '-sw': 'suppress_warning', '--suppress-info': 'suppress_info', '-si': 'suppress_info'}
ENVS = {'--obsidian-template-folder': 'obsidian_template_folder', '--invariant-configuration-folder': 'invariant_configuration_folder', '-icf': 'invariant_configuration_folder'}


def environment(P, E, rep):
    r = run(P, E, rep, 'env::extract_environment_variables', fixed={})
    j = J(rep, 'the environment', r.where)
    maps = {}
    for i, n in r.f.nodes.items():
        if n['k'] != 'DeclStmt':
            continue
        for v in n['vars']:
            if v.get('init') is None or 'map' not in str(v.get('vt')):
                continue
            ks, cur = {}, None
            for x in r.f.walk(v['init']):
                if x['k'] == 'StringLiteral':
                    cur = x.get('s')
                elif x['k'] == 'DeclRefExpr' and x.get('dk') == 'global' and cur is not None:
                    ks[cur] = x['qn'].split('::')[-1]
                    cur = None
            maps[v['name']] = maps[v['lid']] = ks
    R1, R2, R3, R4 = ('every setting has its flags', 'the value is taken from the token after the flag', 'exactly the tokens used are taken out', 'all other tokens are kept in order')
    allk = {}
    for n, m in maps.items():
        if type(n) is str:
            allk.update(m)
    for k, v in list(ENVB.items()) + list(ENVS.items()):
        j(None if not maps else allk.get(k) == v, R1, '%s sets %s' % (k, allk.get(k)))
    L = loops(r)
    ls = [l for l in L if any(e[0] == 'push' for _, ev in l.iters for e in ev)]
    if len(ls) != 1:
        j(None, R4, '%d loops' % len(ls))
        j.flush()
        return
    l = ls[0]
    pos = [v for v in lvars(l) if any(has(f, lambda t: t[0] == 'E' and t[1] == ('p', 0, '') and t[2] == v) for st, _ in l.iters for f in st.facts)]
    if len(pos) != 1:
        j(None, R4, str(pos))
        j.flush()
        return
    v = pos[0]
    for x in l.init(v):
        j(x == 0 or None, R4, 'reading starts at %s' % short(x))
    for st, ret in r.outs:
        size = [t for f in st.facts for t in walk(f, lambda t: t[0] == 'lv' and str(t[1]).startswith('n') or t[0] == 'call' and str(t[1]).endswith('size'))]
        j(covers(st, v, size[0]) if size else None, R4, lambda: text(st))
    for tok in list(ENVB) + list(ENVS) + ['file.cnf', '-gb', '']:
        for nxt in NEXT:
            tk = tokens_for(nxt, tok)
            for st, ev in l.iters:
                V = Val(st, tk, None, {v: 1}, maps)
                if not V.ok():
                    continue
                none = nxt is None or nxt == '' or nxt[0] == '-'
                n = V(l.next(st, v))
                out = [e for e in ev if e[0] == 'push']
                sets = [e for e in ev if e[0] == 'w' and has(e[1], lambda t: t[0] == 'call' and str(t[1]).endswith(('operator[]', 'at', 'find')))]
                what = lambda: '%s followed by %s: sets %s, position %+d' % (tok, 'nothing' if nxt is None else repr(nxt), [short(e[2]) for e in sets], (n or 0) - 1)
                if tok in ENVB:
                    want = (1, 2) if none else (1, 3) if nxt == 'on' else (0, 3) if nxt == 'off' else (None, 2)
                elif tok in ENVS:
                    want = (None, 2) if none else (nxt, 3)
                else:
                    j(len(out) == 1 and V(out[0][2]) == tok or (None if out and V(out[0][2]) is None else False), R4, what)
                    j(not sets, R4, what)
                    j(None if n is None else n == 2, R4, what)
                    continue
                j(not out, R3, what)
                j(None if n is None else n == want[1], R3, what)
                if want[0] is None:
                    j(not sets, R2, what)
                else:
                    key = [V(x) for e in sets for t in walk(e[1], lambda t: t[0] == 'call' and str(t[1]).endswith(('operator[]', 'at', 'find'))) for x in t[3:4]]
                    j(len(sets) == 1 and V(sets[0][2]) == want[0] if sets and V(sets[0][2]) is not None else None if sets else False, R2, what)
                    j(not sets or None in key or set(key) == {tok}, R2, what)
    j.flush(R1, R2, R3, R4)


# ------------------------------------------------------------ the observer's own options
GROUPS = (['-x', '-o', '{a', 'b', 'c}', 'd'], ['-o', '{a b}'], ['-x', '--observing', '{a', '}', 'y', 'z}'], ['-p', '{a', 'b}'], ['-o', 'a', '{b', 'c}'], ['-o', '{}'], ['-y', '-o', '{', 'x}', '-q'])


def sentinel(P, E, rep):
    r = run(P, E, rep, 'options::extract_sentinel_tokens')
    j = J(rep, 'the options of the observer', r.where)
    RU = 'exactly a braced group after the observing flag is taken out'
    n = 0
    met = set()
    L = loops(r)
    for st, ret in r.outs:
        for e in st.cl[0]:
            if e[0] == 'call' or e[0] == 'vmut' and e[2] != 'erase' or e[0] not in ('vmut',) or e[1] != ('p', 0, ''):
                continue
            n += 1
            a = [strip(x) for x in e[3]]
            if len(a) != 2 or any(type(x) is not tuple or x[0] != 'iter' for x in a):
                j(None, RU, str([short(x) for x in a]))
                continue
            lv = sorted({v for x in a for v in walk(x[2], lambda t: t[0] == 'lv')}, key=str)
            o = [v for v in lv if has(a[0][2], lambda t: t == v)]
            if len(o) != 1 or not 1 <= len(lv) <= 2:
                j(None, RU, str([short(x) for x in a]))
                continue
            for tk in GROUPS:
                ok = []
                for vs in itertools.product(range(len(tk)), repeat=len(lv)):
                    env = {v: x for v, x in zip(lv, vs)}
                    b = [Val(st, tk, more=env)(x[2]) for x in a]
                    if None in b:
                        j(None, RU, str([short(x) for x in a]))
                    elif Val(st, tk, more=env).ok():
                        i = env[o[0]]
                        good = tk[i] in ('-o', '--observing') and b[0] == i + 1 < len(tk) and tk[i + 1][0] == '{' and b[0] < b[1] <= len(tk) and tk[b[1] - 1][-1] == '}'
                        # the group ends at the first brace: the search starts at its beginning (checked below)
                        if b[1] > i + 1:
                            j(good, RU, lambda: 'tokens %s, flag at %d: %s taken out' % (tk, i, tk[b[0]:b[1]]))
                        if b[1] > i + 1:
                            met.add(GROUPS.index(tk))
    for i, tk in enumerate(GROUPS):
        o = [x for x in range(len(tk)) if tk[x] in ('-o', '--observing')]
        want = bool(o) and o[0] + 1 < len(tk) and tk[o[0] + 1][0] == '{'
        j(None if not n else (i in met) == want, RU, lambda: '%s: %s' % (tk, 'nothing is taken out' if want else 'a group is taken out'))
    if not n:
        j(None, RU, 'nothing is taken out')
    for f in ('-o', '--observing'):
        hit = [st for st, ret in r.outs for e in st.cl[0] if e[0] == 'vmut' and e[1] == ('p', 0, '') for v in find((st.facts and tuple(st.facts)), lambda t: t[0] == 'lv') if Val(st, [f, '{a}'], more={v: 0}).ok() and has(tuple(st.facts), lambda t: t[0] == 'str' and t[1] == f)]
        j(True if hit else None if not n else False, RU, '%s has no group' % f)
    # the search for the end starts with the token after the flag
    for l in L:
        ends = [v for v in lvars(l) if any(has(f, lambda t: t == 125) and has(f, lambda t: t == v) for st, _ in l.iters for f in st.facts)]
        for v in ends:
            for st, ev in l.entries if not callable(getattr(l, 'entries', None)) else ():
                pass
            for x in l.init(v):
                j(True if type(x) is tuple and x[0] == '+' and x[2] == 1 else False if type(x) is int or type(x) is tuple and x[0] == 'lv' or type(x) is tuple and x[0] == '+' else None, 'the group ends at the first closing brace', lambda: short(x))
            for st, ev in l.iters:
                j(stepof(l, st, v) == 1 or None, 'the group ends at the first closing brace', lambda: short(l.next(st, v)))
    j.flush(RU)


# ------------------------------------------------------------ nobody else changes options
class WC(OC):
    def inline(self, eng, fid, qn, depth):
        return False


def restored(P, E, rep, f, qn):
    """the function gives the option its value from before back on every path"""
    r = Run(P, E, OC.R(), rep, f.qn, func=f, cls=WC)
    for st, ret in r.outs:
        w = [e for e in st.cl[0] if e[0] == 'w' and e[1][0] == 'F' and e[1][2] == qn]
        if not w or strip(w[-1][2]) != strip(('m', w[-1][1], 0)) or len({w_[1] for w_ in w}) != 1:
            return False
    return bool(r.outs)


def owners(P, E, rep):
    names = {OREC + '::' + d[1] for d in DOC}
    for qn in sorted(names):
        with rep.guard(qn):
            bad = []
            for fid, f in P.funcs.items():
                if f.qn.startswith(OREC + '::'):
                    continue
                if ('F', qn) in E.direct[fid]:
                    if restored(P, E, rep, f, qn):
                        continue
                    bad.append('%s (%s)' % (f.qn, f.where()))
            rep.add('an option keeps the value the command line gave it: ' + qn.split('::')[-1], bad[0] if bad else '-', BAD if bad else OK, '; '.join(bad))
