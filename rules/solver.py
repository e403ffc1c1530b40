"""Solver rules: common model of the NapSAT object for the path-sensitive engine."""
from nslib.spec import *
from nslib import absint
from nslib.absint import S, mentions

REC = 'napsat::NapSAT'
THIS = ('this',)
UNDEFC = 0xFFFFFFFF
BS = 'bitset'

# internal operations that keep their identity in the traces of their callers; everything else is looked through
ANCHORS = ['imply_literal', 'reimply_literal', 'reimply_literal_root', 'eager_decision_reimplication', 'var_unassign', 'backtrack', 'restart',
           'internal_add_clause', 'next_clause_id', 'delete_clause', 'simplify_clause_set', 'purge_clauses', 'purge_root_watch_lists',
           'repair_watch_lists', 'watch_lit', 'watch_lit_bin', 'stop_watch', 'select_watched_literals', 'cleanup_duplicate_literals',
           'propagate', 'propagate_lit', 'propagate_binary_clauses', 'repair_conflicts', 'level_repair', 'graph_repair', 'analyze_conflict',
           'analyze_conflict_impl', 'try_and_learn', 'try_and_learn_impl', 'add_and_delete_clause', 'fix_conflicts_and_learned_in_order',
           'solve', 'decide', 'add_assumption_GB_true', 'add_assumption_GB_false', 'add_assumption_GB_undef', 'allocate_chunks', 'var_allocate',
           'defragment_order', 'defragment_trail', 'prove_root_literal_removal', 'prove_root_conflict_with_lazy_merging', 'root_level_conflict',
           'bump_var_activity', 'bump_clause_activity', 'advanced_level_replacement', 'advanced_graph_replacement', 'quick_replacement',
           'reimplication_cycle', 'recompute_chunks', 'implication_level', 'update_chunks', 'update_cross_chunks', 'literal_cost',
           'setup_weights', 'calculate_bitset_weights', 'calculate_bitset_weights_approx', 'compute_backtrack_possibilities',
           'choose_backtracked_level', 'compute_repair_level', 'subsumption_filter', 'purge_conflict_buffer', 'compute_subsumed_clauses',
           'learned_clause_is_redundant', 'clause_subsumed_in_formula', 'fix_watched_literals', 'lit_is_required_in_learned_clause',
           'conflict_is_UIP_cut', 'conflict_can_generate_learned_clause', 'implication_active_after_backtrack', 'print_trail', 'clause_to_string',
           'lit_to_string', 'clause_level', 'clause_chunks', 'utility_heuristic', 'max_utility_heuristic', 'find_literal_in_trail',
           'parse_command', 'save_state', 'load_invariant_configuration', 'lit_lazy_level', 'var_mark_constrained']


# queries without effect: their result is a term over the state they read
PUREQ = ('lit_lazy_level', 'implication_active_after_backtrack', 'conflict_is_UIP_cut', 'lit_is_required_in_learned_clause', 'utility_heuristic',
         'conflict_can_generate_learned_clause', 'max_utility_heuristic', 'compute_repair_level')
# library algorithms that change what they are given
LIBMUT = ('memcpy', 'memmove', 'memset', 'copy', 'copy_n', 'move', 'fill', 'fill_n', 'sort', 'stable_sort', 'swap', 'iter_swap', 'reverse', 'rotate', 'unique', 'remove', 'remove_if',
          'copy_if', 'remove_copy_if', 'partition', 'stable_partition', 'nth_element', 'partial_sort')
WRAP = {('F', 'napsat::Tvar::value'), ('F', 'napsat::Tlevel::value')}

# the backtracking modes the option resolution can produce
MODES = {
    'NCB': dict(chronological_backtracking=0, lazy_strong_chronological_backtracking=0, graph_backtracking=0, lazy_chunk_merging=0, eager_chunk_merging=0),
    'CB': dict(chronological_backtracking=1, lazy_strong_chronological_backtracking=0, graph_backtracking=0, lazy_chunk_merging=0, eager_chunk_merging=0),
    'LSCB': dict(chronological_backtracking=1, lazy_strong_chronological_backtracking=1, graph_backtracking=0, lazy_chunk_merging=0, eager_chunk_merging=0),
    'GB': dict(chronological_backtracking=0, lazy_strong_chronological_backtracking=0, graph_backtracking=1, lazy_chunk_merging=0, eager_chunk_merging=0),
    'GB-lcm': dict(chronological_backtracking=0, lazy_strong_chronological_backtracking=0, graph_backtracking=1, lazy_chunk_merging=1, eager_chunk_merging=0),
    'GB-ecm': dict(chronological_backtracking=0, lazy_strong_chronological_backtracking=0, graph_backtracking=1, lazy_chunk_merging=0, eager_chunk_merging=1),
}


class Sol:
    """roles of the solver's fields (by declared name and type; a vanished one is an error)"""

    def __init__(self, P):
        self.P = P
        r = P.records.get(REC)
        if r is None:
            raise AnalysisError('anchor vanished: ' + REC)
        self.fields = {f['name']: f['t'] for f in r['fields']}
        self.vecs = tuple(REC + '::' + f['name'] for f in r['fields'] if 'vector<' in f['t'])

    def q(self, n):
        if n not in self.fields:
            raise AnalysisError('anchor vanished: field %s of %s' % (n, REC))
        return REC + '::' + n

    def f(self, n):
        return ('F', THIS, self.q(n))

    def v(self, n):
        return ('&', self.f(n))

    def var(self, t, fld):
        """location of a field of the variable record of term t"""
        return ('F', ('&', ('E', self.v('_vars'), t, 'napsat::NapSAT::TSvar')), REC + '::TSvar::' + fld)

    def opt(self, n):
        return ('m', ('F', self.v('_options'), 'napsat::options::' + n), 0)


class SC(VecClient):
    merge = False
    peel = False
    tight = True          # the path behind a loop forgets what was learned inside
    max_states = 40000
    observer = False
    stats = False
    proof = None          # None: unknown, True: present, False: absent
    tracker = None
    follow = ()           # anchors looked into
    impure = ()           # const anchors that must leave an event
    opaque_bits = True
    mode = None
    opts = {}
    nowrite = ()

    def __init__(self, R, **kw):
        self.R = R
        self.vecs = R.vecs
        for k, v in kw.items():
            setattr(self, k, v)
        self.anch = {REC + '::' + a for a in ANCHORS if a not in self.follow}

    def reset(self):
        self.entries, self.iters, self.changed = {}, {}, {}

    def preloop(self, eng, st, fn, blk, ctx):
        """one arbitrary iteration per loop: its events are recorded at the back edge and dropped from the path"""
        ev = st.cl[0]
        mark = ('L', ctx, fn.fid, blk)
        key = (ctx, fn.fid, blk)
        if mark in ev:
            k = len(ev) - 1 - ev[::-1].index(mark)
            self.iters.setdefault(key, []).append((st.copy(), ev[k + 1:]))
            st.cl = (ev[:k + 1], st.cl[1])
            body = set()
            for b in fn.loops()[blk]:
                body |= {str(e) for e in fn.blocks[b]['e']}
            if self.tight:
                self.restart(eng, st, fn, blk, ctx, key, mark)
            else:
                names = set()
                for fct in list(st.facts) + [v for v in st.store.values() if type(v) is tuple] + list(st.store):
                    names |= mentions(fct)
                for nm in names:
                    x = nm[1:] if nm[:1] == 'b' else nm
                    if x.startswith(ctx) and x[len(ctx):len(ctx) + 1] in '/:':
                        e = x[len(ctx) + 1:].split('/')[0].split(':')[0].split('.')[0].split('~')[0].split('!')[0]
                        if e in body and nm[:1] != 'b':
                            eng.kill(st, nm)
                # whatever the body changed and the loop havoc does not name is unknown from here on
                e0 = self.entries[key][-1]
                for d, o in ((st.ep, e0.ep), (st.ver, e0.ver)):
                    for kk in [kk for kk in d if o.get(kk) != d[kk]]:
                        if kk[0] == 'L' or kk[0] == 'E' and len(kk) > 1 and kk[1] == 'L':
                            del d[kk]
                        else:
                            d[kk] = 'x' + S(ctx, blk) + ('!' if d is st.ver else '')
                for l in [l for l, v in st.store.items() if l[0] != 'L' and e0.store.get(l) != v and not eng.private(st, l)]:
                    del st.store[l]
            st.tmp = {}
        else:
            es = self.entries.setdefault(key, [])
            if self.tight:
                self.setkv(st, ('le',) + key, len(es))
            es.append(st.copy())
            st.cl = (ev + (mark,), st.cl[1])
        mods = eng.loop_info(fn, blk, fn.loops()[blk])[0]
        kvs = []
        eng.kill(st, 'n' + S(ctx, blk))
        for k, v in st.cl[1]:
            if k[0] == 'n' and type(k[1]) is tuple and (('F', self.vroot(k[1])) in mods):
                continue
            kvs.append((k, v))
        for q in sorted(self.vecs):
            if ('F', q) in mods:
                kvs.append((('n', ('&', ('F', THIS, q))), ('lv', 'n' + S(ctx, blk), q)))
        st.cl = (st.cl[0], tuple(kvs))

    def restart(self, eng, st, fn, blk, ctx, key, mark):
        """the path behind a loop starts from the state before it, minus whatever iterations were seen to change"""
        base = self.entries[key][self.kv(st, ('le',) + key)].copy()
        chg = self.changed.setdefault(key, set())
        for nm in ('ep', 'ver'):
            d, o = getattr(st, nm), getattr(base, nm)
            chg |= {(nm, k) for k in d if o.get(k) != d[k]}
        locs = eng.loop_info(fn, blk, fn.loops()[blk])[1]
        chg |= {('s', l) for l, v in base.store.items() if st.store.get(l) != v and not (l[0] == 'L' and l[1] in locs and l[2] == ctx)}
        x = 'x' + absint.S(ctx, blk)
        for w, k in chg:
            if w == 's':
                v = base.store.pop(k, None)
                if k[0] == 'F' and type(k[1]) is tuple and k[1][0] == '&' and k[1][1][0] == 'L':
                    base.store[k] = ('m', k, x)
                elif k[0] == 'L' and type(v) is tuple and v[:1] == ('obj',) and len(v) == 3 and type(v[2]) is tuple:
                    mods = eng.loop_info(fn, blk, fn.loops()[blk])[0]
                    base.store[k] = ('obj', v[1], tuple((q, ('m', ('F', ('&', k), q), x) if ('F', q) in mods else y) for q, y in v[2]))
            elif k[0] == 'L' or k[0] == 'E' and len(k) > 1 and k[1] == 'L':
                getattr(base, w).pop(k, None)
            else:
                getattr(base, w)[k] = x + ('!' if w == 'ver' else '')
        cur = dict(st.cl[1])
        base.cl = (base.cl[0] + (mark,), tuple((k, v) for k, v in base.cl[1] if k[0] != 'n' or cur.get(k) == v))
        for f in st.__slots__:
            setattr(st, f, getattr(base, f))

    def vroot(self, a):
        while a[1][0] == 'E':
            a = a[1][1]
        return a[1][2]

    def setup(self, eng, st):
        R = self.R
        for n, on in (('_sentinel', self.observer), ('_statistics', self.stats), ('_proof', self.proof), ('_dependency_tracker', self.tracker)):
            if on is False:
                st.store[R.f(n)] = 0
            elif on is True:
                st.store[R.f(n)] = ('new', n[1:])
        for o, v in list(MODES.get(self.mode, {}).items()) + list(self.opts.items()):
            st.store[('F', R.v('_options'), 'napsat::options::' + o)] = v

    def vecq(self, a):
        if type(a) is tuple and a[0] == '&' and a[1][0] == 'F' and a[1][2] in self.vecs:
            return a
        if type(a) is tuple and a[0] == '&' and a[1][0] == 'E' and self.vecq(a[1][1]) and 'vector' in str(a[1][3]):
            return a
        return None

    def inline(self, eng, fid, qn, depth):
        q = qn.split('<')[0]
        if q in self.anch:
            return False
        if q.startswith(('bitset::', 'napsat::utils::heap', 'napsat::proof', 'sentinel', 'napsat::statistics', 'napsat::luby_counter')):
            return False
        return True

    def call2(self, eng, st, c):
        q = c.qn.split('<')[0]
        if q in self.anch:
            args = tuple(eng.unloc(st, x) for x in c.args)
            f = eng.P.funcs.get(c.fid)
            nm = q[len(REC) + 2:]
            if f is not None and (f.const or nm in PUREQ) and nm not in self.impure and not any('&' in p['t'] and 'const' not in p['t'] for p in f.params) and eng.E.mod[c.fid] <= WRAP:
                return [(st, eng.callterm(st, c.qn, c.this, args, c.fid))]
            self.emit(st, 'call', nm, args)
            return None
        if q.startswith(('napsat::utils::heap::', 'napsat::proof::', 'sentinel::', 'napsat::statistics', 'napsat::luby_counter')):
            args = tuple(eng.unloc(st, x) for x in c.args)
            self.emit(st, 'call', q, (c.this,) + args)
            return None
        if q.startswith(BS + '::'):
            return self.bits(eng, st, c)
        if c.name in LIBMUT and c.fid not in eng.P.funcs:
            self.emit(st, 'lib', c.name, tuple(x[1] if type(x) is tuple and x[0] == 'loc' else x for x in c.args))
        return None

    def new(self, eng, st, t, where, args):
        self.emit(st, 'new', t, tuple(args), bool(where[2].get('arr')))

    def delete(self, eng, st, val, where):
        self.emit(st, 'del', val, bool(where[2].get('arr')))

    def bits(self, eng, st, c):
        """bitsets are values: ('bset', op, ...) terms over the contents of their operands"""
        obj = c.this
        args = tuple(('&', x[1]) if type(x) is tuple and x[0] == 'loc' and 'bitset' in t else eng.unloc(st, x) for x, t in zip(c.args, (list(c.pt or ()) + ['?'] * 9)))
        nm = c.name
        if nm in ('set', 'clear', 'resize', 'operator|=', 'operator&=', 'operator^=', 'operator-=', 'operator='):
            self.emit(st, 'bits', nm, obj, args)
            return None
        if nm in ('has_intersection', 'empty', 'count', 'get', 'operator[]', 'operator<=', 'operator>=', 'operator<', 'operator>', 'operator==', 'operator!=', 'cbegin', 'cend',
                  'begin', 'end', 'operator|', 'operator&', 'operator-', 'operator^', 'capacity'):
            return [(st, eng.callterm(st, c.qn, obj, args, c.fid))]
        return None

    def bval(self, eng, st, x):
        return x

    def write(self, eng, st, loc, val, site):
        if loc[0] in ('F', 'E', 'D'):
            self.emit(st, 'w', loc, val)


# ---------------------------------------------------------------- reading results
class Run:
    """one analysed function: exits, loops, helpers"""

    def __init__(self, P, E, R, rep, name, j=0, cls=SC, pred=None, func=None, **kw):
        fs = [func] if func else P.fn(REC + '::' + name)
        if pred:
            fs = [f for f in fs if pred(f)]
        if not fs:
            raise AnalysisError('anchor vanished: ' + REC + '::' + name)
        self.R, self.f, self.C = R, fs[j], cls(R, **kw)
        self.name, self.mode = name, kw.get('mode')
        self.eng, self.outs = analyse(P, E, self.C, self.f, setup=self.C.setup)
        if rep is not None:
            rep.engine(self.eng)
        self.where = self.f.where()

    def p(self, j):
        return ('p', j, '')

    def fin(self, st, loc):
        return self.eng.read(st, loc)

    def loops(self):
        """[(key, entry states, [(state, events)])]"""
        return [(k, self.C.entries[k], self.C.iters.get(k, [])) for k in self.C.entries]


def same(st, a, b):
    """a == b on this path: True / False / None"""
    if a == b:
        return True
    d = mk('==', a, b)
    return d != 0 if type(d) is int else st.decide(d)


def holds(st, atom):
    return bool(atom) if type(atom) is int else st.decide(atom)


def holdsx(st, atom):
    """the path decides atom, ignoring when its operands were read"""
    r = holds(st, atom)
    if r is None:
        a = strip(atom)
        for k, v in st.facts.items():
            if strip(k) == a:
                r = v
    return r


def calls(ev, name):
    return [e[2] for e in ev if e[0] == 'call' and e[1] == name]


def pushes(ev, vec):
    return [(e[2], e[3]) for e in ev if e[0] == 'push' and e[1] == vec]


def writes(ev, loc):
    return [e[2] for e in ev if e[0] == 'w' and e[1] == loc]


def split(st, *atoms):
    """copies of the path in which every atom is decided"""
    out = [st]
    for a in atoms:
        nxt = []
        for s in out:
            if type(a) is int or s.decide(a) is not None:
                nxt.append(s)
                continue
            for v in (True, False):
                t = s.copy()
                if t.assume(a, v):
                    nxt.append(t)
        out = nxt
    return out


def vart(lit):
    return mk('>>', lit, 1) if False else ('call', 'napsat::Tlit::var', lit)


def pol(lit):
    return ('call', 'napsat::Tlit::pol', lit)


def pure(name, *args):
    """prefix of the term of a pure solver query"""
    return ('call', REC + '::' + name, THIS) + args


def is_pure(t, name, *args):
    p = pure(name, *args)
    return type(t) is tuple and t[:len(p)] == p


def has(t, pred):
    return any(True for _ in walk(t, pred))


def walk(t, pred):
    work = [t]
    while work:
        x = work.pop()
        if type(x) is not tuple:
            continue
        try:
            ok = pred(x)
        except (IndexError, TypeError):
            ok = False
        if ok:
            yield x
        work.extend(reversed(x))


def find(t, pred):
    return list(walk(t, pred))


def fuzzy(t, known=()):
    """the term contains something the analysis does not know the value of (loop variables outside `known`, results of opaque calls)"""
    return has(t, lambda x: len(x) > 0 and (x[0] in ('u', 'app', 'r', 'phi') or x[0] == 'lv' and x not in known))


def eqt(st, a, b, known=()):
    """a equals the demanded b on this path: True, False, or None when a is not a closed term"""
    r = same(st, a, b)
    if r is not None:
        return r
    return None if fuzzy(a, known) else False


def last(st, ev, run, loc):
    """value last stored at loc on this path (or the value it holds)"""
    w = writes(ev, loc)
    return w[-1] if w else run.fin(st, loc)


class J:
    """collects one verdict per rule over all paths of a function: violated > undecided > discharged"""

    def __init__(self, rep, pre, where):
        self.rep, self.pre, self.where, self.v = rep, pre, where, {}

    def __call__(self, cond, rule, detail=''):
        s = OK if cond else UND if cond is None else BAD
        o = self.v.get(rule)
        rank = {OK: 0, UND: 1, BAD: 2}
        if o is None or rank[s] > rank[o[0]]:
            self.v[rule] = (s, detail() if callable(detail) else detail)
        return cond

    def flush(self, *need):
        for n in need:
            if n not in self.v:
                self.v[n] = (UND, 'no path exercises this rule')
        for r, (s, d) in self.v.items():
            self.rep.add(self.pre + ': ' + r, self.where, s, d if s != OK else '')
        self.v = {}


def facts(st, base=None):
    b = set(base.facts.items()) if base is not None else ()
    return '; '.join('%s%s' % ('' if v else 'not ', pp(k)) for k, v in st.facts.items() if (k, v) not in b)


def short(t):
    return (pp(t) if type(t) is tuple else str(t)).replace('napsat::', '').replace('NapSAT::', '').replace('this.', '')


class Loop:
    def __init__(self, run, key, entries, iters):
        self.run, self.key, self.entries, self.iters = run, key, entries, iters

    def lvs(self):
        return 'b'

    def init(self, lv, st=None):
        """values a loop variable can have on entry (of the path st, if given)"""
        es = [e for e in self.entries if not any(st.facts.get(f, v) != v for f, v in e.facts.items() if not has(f, self.own))] if st is not None else self.entries
        return {self.at(e, lv[2]) for e in es or self.entries}

    def at(self, st, lid):
        l = ('L', lid, self.key[0])
        r = st.env.get((self.key[0], lid))
        if l not in st.store and type(r) is tuple and r[0] == 'ref':
            return self.run.eng.read(st, r[1])
        return st.store.get(l)

    def next(self, st, lv):
        return self.at(st, lv[2])

    def own(self, t):
        """t is a loop variable of this loop (not one of an enclosing or earlier loop)"""
        return type(t) is tuple and t[:1] == ('lv',) and t[1][1:] == absint.S(self.key[0], self.key[2])


def loops(run):
    return [Loop(run, k, e, i) for k, e, i in run.loops()]


def strip(t):
    """the term without version stamps"""
    if type(t) is not tuple or not t:
        return t
    if t[0] == 'm' and len(t) == 3:
        return ('m', strip(t[1]), 0)
    if t[0] == 'call':
        return tuple(strip(x) for x in t if not (type(x) is tuple and x[:1] == ('v',)))
    if t[0] == 'E' and len(t) == 4:
        return ('E', strip(t[1]), strip(t[2]), '')
    return tuple(strip(x) for x in t)


def eqs(a, b):
    return strip(a) == strip(b)


def lit_at(R, cl, k, w=0):
    """k-th literal of clause cl"""
    return ('m', ('E', ('m', ('F', ('&', ('E', R.v('_clauses'), cl, 'napsat::NapSAT::TSclause')), REC + '::TSclause::lits'), 0), k, 'const napsat::Tlit'), w)


def csize(R, cl):
    return ('m', ('F', ('&', ('E', R.v('_clauses'), cl, 'napsat::NapSAT::TSclause')), REC + '::TSclause::size'), 0)


def field(R, cl, f):
    return ('F', ('&', ('E', R.v('_clauses'), cl, 'napsat::NapSAT::TSclause')), REC + '::TSclause::' + f)


def mem(loc, w=0):
    return ('m', loc, w)


def lvars(l):
    """variables the loop changes, as seen at the start of an iteration"""
    f = l.run.eng.P.funcs[l.key[1]]
    locs = l.run.eng.loop_info(f, l.key[2], f.loops()[l.key[2]])[1]
    out = set()
    for st, _ in l.iters:
        for k in st.store:
            if k[0] == 'L' and k[2] == l.key[0] and k[1] in locs:
                out.add(('lv', 'b' + absint.S(l.key[0], l.key[2]), k[1]))
        for k, v in st.env.items():
            if type(k) is tuple and len(k) == 2 and k[0] == l.key[0] and k[1] in locs and type(v) is tuple and v[0] == 'ref':
                lv = ('lv', 'b' + absint.S(l.key[0], l.key[2]), k[1])
                if has((l.next(st, lv), tuple(st.facts)), lambda t: t == lv):
                    out.add(lv)
    if not l.iters:
        # the head is never reached again: what the code after it still calls a loop variable
        own = 'b' + absint.S(l.key[0], l.key[2])
        for st, ret in getattr(l.run, 'outs', ()):
            out |= set(walk((ret,) + tuple(st.facts) + tuple(st.store.values()) + tuple(st.cl[0]), lambda t: t[0] == 'lv' and len(t) == 3 and t[1] == own))
    return out


# ------------------------------------------------------------ does a loop stop only past its bound?
def evt(t, env):
    """value of a term when the terms of env (stripped) have the given values; None: not evaluable"""
    if type(t) in (int, bool):
        return int(t)
    if type(t) is not tuple:
        return None
    if t in env:
        return env[t]
    if t[0] == 'cast' and len(t) == 3:
        x = evt(t[2], env)
        return x if x is None else x & 0xff if t[1] == 'unsigned char' else x & 0xffff if t[1] == 'unsigned short' else (x + 0x80) % 0x100 - 0x80 if t[1] in ('char', 'signed char') else (x + 0x8000) % 0x10000 - 0x8000 if t[1] == 'short' else x
    if t[0] == 'iter' and len(t) == 3:
        return evt(t[2], env)
    xs = [evt(x, env) for x in t[1:]]
    if None in xs or not xs:
        return None
    o = t[0]
    try:
        return {'+': lambda: sum(xs), '-': lambda: xs[0] - xs[1], '*': lambda: xs[0] * xs[1], '<': lambda: int(xs[0] < xs[1]), '==': lambda: int(xs[0] == xs[1]), '&': lambda: xs[0] & xs[1],
                '|': lambda: xs[0] | xs[1], '^': lambda: xs[0] ^ xs[1], '>>': lambda: xs[0] >> xs[1], '<<': lambda: xs[0] << xs[1], '/': lambda: xs[0] // xs[1], '%': lambda: xs[0] % xs[1], '!': lambda: int(not xs[0])}[o]()
    except (KeyError, IndexError, ZeroDivisionError, ValueError):
        return None


def covers(st, lv, bound, lo=0, ix=lambda t: t):
    """after the loop every position from lo below the bound was visited: True / False (it can stop early) / None (no usable exit condition)"""
    b, v = strip(ix(bound)), strip(lv)
    fs = []
    for f, val in st.facts.items():
        if f[0] in ('<', '==') and len(f) == 3 and has(f, lambda t: t == lv or strip(t) == v):
            fs.append((tuple([f[0]] + [strip(ix(x)) for x in f[1:]]), val))
    used = False
    for n in range(0, 7):
        for i in range(lo, n):
            ok = True
            for f, val in fs:
                x = evt(f, {v: i, b: n})
                if x is None:
                    continue
                used = True
                if bool(x) != val:
                    ok = False
            if ok and used:
                return False
    return True if used else None


def stepof(l, st, lv):
    """+1, -1, another number, or None"""
    n = l.next(st, lv)
    d = {x: evt(strip(n), {strip(lv): x}) for x in (5, 9)}
    return d[5] - 5 if d[5] is not None and d[9] is not None and d[5] - 5 == d[9] - 9 else None


def visits(l, st, lv, bound, lo=0, ix=lambda t: t):
    """the loop, left on the path st, has visited every position from lo below the bound: True / False / None"""
    steps = {stepof(l, s, lv) for s, _ in l.iters}
    if None in steps or not steps:
        return None
    steps -= {0}
    if len(steps) != 1:
        return None
    d = steps.pop()
    if abs(d) != 1:
        return False
    b = strip(ix(bound))
    for x in l.init(lv, st):
        for n in (4, 7):
            v = evt(strip(ix(x)), {b: n})
            if v is None:
                return None
            if d == 1 and v > lo or d == -1 and v < n - 1:
                return False
    return covers(st, lv, bound, lo, ix)
