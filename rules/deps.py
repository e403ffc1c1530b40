"""Dependency tracker: set algebra of premises, per operation and per loop iteration."""
from nslib.spec import *
from rules.heap import scan_cover

REC = 'napsat::proof::dependency_tracker'
CD = REC + '::clause_dependencies'
THIS = ('this',)


class DC(VecClient):
    """std::set fields as symbolic sets: events add / union / clear"""

    def __init__(self, R):
        self.R = R
        self.vecs = (R.clauses,)
        self.sets = (R.premises, R.track)

    def write(self, eng, st, loc, val, site):
        if loc[0] == 'F' and loc[2] in (self.R.input, self.R.used):
            self.emit(st, 'w', loc[2], loc[1], val)
        elif loc[0] == 'F' and loc[2] in self.sets:
            self.emit(st, 'vmut', ('&', loc), 'write', (val,))
        elif loc[0] == 'E' and loc[1] == self.R.C:
            self.emit(st, 'vmut', ('&', loc), 'write', (val,))

    def call2(self, eng, st, c):
        a = c.this
        if not (type(a) is tuple and a[0] == '&' and a[1][0] == 'F' and a[1][2] in self.sets):
            for x in c.args:
                x = x[1] if type(x) is tuple and x[0] == 'loc' else x
                if type(x) is tuple and (x[0] == 'F' and x[2] in self.sets) and not eng.P.funcs.get(c.fid):
                    self.emit(st, 'vmut', ('&', x), c.name, ())
            return None
        nm = c.name
        args = [eng.unloc(st, x) for x in c.args]
        if nm in ('insert', 'emplace', 'emplace_hint'):
            if nm == 'emplace_hint' or nm == 'insert' and len(args) == 2 and not (type(args[1]) is tuple and args[1][0] == 'iter'):
                args = args[1:]
            if len(args) == 2:
                x, y = args
                if type(x) is tuple and type(y) is tuple and x[0] == y[0] == 'iter' and x[1] == y[1] and x[2] == 0 and y[2] == self.size(x[1]):
                    self.emit(st, 'union', a, x[1], eng.phase(st))
                else:
                    self.emit(st, 'vmut', a, 'insert', tuple(args))
            elif len(args) == 1:
                self.emit(st, 'add', a, args[0], eng.phase(st))
            return [(st, ('u', absint.S(c.ctx, c.node), 'ins'))]
        if nm == 'clear':
            self.emit(st, 'clear', a)
            return [(st, 0)]
        if nm in ('begin', 'cbegin'):
            return [(st, ('iter', a, 0))]
        if nm in ('end', 'cend'):
            return [(st, ('iter', a, self.size(a)))]
        if nm in ('size', 'empty'):
            return [(st, self.size(a) if nm == 'size' else mk('==', self.size(a), 0))]
        if nm == 'operator=' or nm in ('swap', 'merge', 'erase', 'extract'):
            b = c.args[0] if c.args else None
            if nm == 'operator=' and type(b) is tuple and b[0] == 'loc' and b[1][0] == 'F' and b[1][2] in self.sets:
                self.emit(st, 'clear', a)
                self.emit(st, 'union', a, ('&', b[1]), eng.phase(st))
                return [(st, 0)]
            self.emit(st, 'vmut', a, nm, tuple(args))
        return None

    def size(self, a):
        return ('call', 'std::size', a)


class Roles:
    def __init__(self, P):
        self.clauses = field_of(P, REC, lambda f: 'indexed_vector<' in f['t'] or 'vector<' in f['t'])
        self.track = field_of(P, REC, lambda f: 'set<' in f['t'])
        self.premises = field_of(P, CD, lambda f: 'set<' in f['t'])
        self.input, self.used = CD + '::is_input', CD + '::in_use'
        names = [f['name'] for f in P.records.get(CD, {}).get('fields', ())]
        if not (self.clauses and self.track and self.premises) or 'is_input' not in names or 'in_use' not in names:
            raise AnalysisError('anchor vanished: representation of ' + REC)
        self.C = ('&', ('F', THIS, self.clauses))
        self.T = ('&', ('F', THIS, self.track))

    def prem(self, k):
        return ('&', ('F', ('&', ('E', self.C, k, CD)), self.premises))


def same(a, b):
    """same set, ignoring how the element type is spelled"""
    def f(t):
        return ('E', t[1], t[2], '') if t[0] == 'E' and len(t) > 3 else None

    def g(t):
        t = subst(t, lambda x: None)
        if type(t) is not tuple:
            return t
        if t and t[0] == 'E' and len(t) > 3:
            t = t[:3] + ('',)
        return tuple(g(x) for x in t)
    return g(a) == g(b)


def check(P, E, rep):
    R = Roles(P)
    id_, dep = ('p', 0, ''), ('p', 1, '')

    def run(nm, known=True, setup=None):
        f = P.need(REC + '::' + nm)
        C = DC(R)

        def s(eng, st):
            C.setkv(st, ('n', R.C), ('sym', 'n'))
            if known is not None:
                st.assume(('<', id_, ('sym', 'n')), known)
            if setup:
                setup(eng, st)
        eng, outs = analyse(P, E, C, f, s)
        rep.engine(eng)
        if not outs:
            rep.und(nm, f.where(), 'no normal exit')
        return f, C, outs

    def effects(C, st, f, nm, sets):
        """writes to sets other than the listed ones are wrong; -> (events on sets, flag writes) or None"""
        ev = C.events(st)
        for e in ev:
            if e[0] == 'vmut':
                rep.und(nm, f.where(), 'unmodelled operation on a set (%s)' % e[2])
                return None
            if e[0] in ('add', 'union', 'clear') and not any(same(e[1], s) for s in sets):
                if is_unknown(e[1]):
                    rep.und(nm, f.where(), 'operation on a set that is not identified')
                    return None
                rep.bad(nm + '/frame', f.where(), '%s changes %s' % (nm, pp(e[1])))
                return None
        return [e for e in ev if e[0] in ('add', 'union', 'clear')], [e for e in ev if e[0] == 'w']

    def flag(ws, q, k):
        v = None
        for e in ws:
            if e[1] == q and same(e[2], ('&', ('E', R.C, k, ''))):
                v = e[3]
        return v

    # ---- declarations
    for nm, isin in (('add_input', 1), ('add_learned', 0)):
        for known in (True, False):
            f, C, outs = run(nm, known)
            for st, v in outs:
                w = f.where()
                r = effects(C, st, f, nm, [R.prem(id_)])
                if r is None:
                    continue
                sv, ws = r
                n2 = C.vsize(st, R.C)
                if not known:
                    big = n2 == mk('+', id_, 1) or leq(st, id_, n2, True) or (type(n2) is tuple and n2[0] == '+' and n2[1] == id_ and type(n2[2]) is int and n2[2] > 0)
                    rep.check(True if big else None if is_unknown(n2) or n2 not in (('sym', 'n'), id_) else False, nm + '/room', w, 'no room is made for an identifier beyond the table (size %s)' % pp(n2))
                else:
                    rep.check(n2 == ('sym', 'n') or leq(st, ('sym', 'n'), n2) or (None if is_unknown(n2) else False), nm + '/room', w, 'the table is resized to %s although the identifier fits' % pp(n2))
                fi, fu = flag(ws, R.input, id_), flag(ws, R.used, id_)
                if any(not same(e[2], ('&', ('E', R.C, id_, ''))) for e in ws):
                    rep.bad(nm + '/frame', w, 'flags of another clause change')
                    continue
                # a fresh or deleted entry is not an input and unused
                rep.check(fu == 1, nm + '/in-use', w, 'the clause is left with in-use = %s' % pp(fu))
                rep.check(fi == isin or (isin == 0 and fi is None), nm + '/kind', w, 'the clause is left with input flag %s' % pp(fi))
                got = [e for e in sv if e[0] != 'clear']
                if isin:
                    rep.check([e[:3] for e in got] and all(e[0] == 'add' and e[2] == id_ for e in got) and sv[-1][0] != 'clear', nm + '/self', w, 'an input clause does not depend on exactly itself: %s' % [pp(e) for e in sv])
                else:
                    rep.check(not got, nm + '/self', w, 'a learned clause starts with dependencies %s' % [pp(e) for e in got])
    # ---- link / track: one union of the dependency's own premises
    for nm, dst, src in (('link_dependencies', R.prem(id_), R.prem(dep)), ('track_dependency', R.T, R.prem(id_))):
        f, C, outs = run(nm, None)
        for st, v in outs:
            r = effects(C, st, f, nm, [dst])
            if r is None:
                continue
            sv, ws = r
            if st.decide(mk('==', id_, dep)) and nm == 'link_dependencies':
                continue
            guards = [k for k, x in st.facts.items()]
            if any(e[0] == 'clear' for e in sv):
                rep.bad(nm + '/keep', f.where(), '%s forgets earlier dependencies' % nm)
                continue
            hit = [e for e in sv if e[0] == 'union' and same(e[2], src)]
            rest = [e for e in sv if e not in hit]
            if not hit and rest:
                # an explicit loop over the source set
                idx = [(elem_index(e[2], src), e[3]) for e in rest if e[0] == 'add']
                if len(idx) == len(rest) and all(i is not None for i, _ in idx):
                    rep.check(scan_cover(st, idx, 0, (C.size(canon(rest[0][2], src)),)), nm + '/union', f.where(), 'not every dependency of the premise is added')
                    continue
            if not hit and not rest:
                empty = [k for k, x in st.facts.items() if x and k[0] == '==' and k[2] == 0 and same(k[1], ('call', 'std::size', src))] or leq(st, C.size(src), 0)
                if empty or any(same_size(k, src) for k in guards):
                    continue
            rep.check(bool(hit), nm + '/union', f.where(), 'the dependencies of the premise are not added')
            rep.check(not rest, nm + '/exact', f.where(), 'dependencies not coming from the premise are added: %s' % [pp(e[2]) for e in rest])
            rep.check(not ws, nm + '/frame', f.where(), 'flags change')
    # ---- finalize: union over every tracked element, then forget
    nm = 'finalize_tracking'
    f, C, outs = run(nm, None)
    for st, v in outs:
        r = effects(C, st, f, nm, [R.prem(id_), R.T])
        if r is None:
            continue
        sv, ws = r
        onP = [e for e in sv if same(e[1], R.prem(id_))]
        onT = [e for e in sv if same(e[1], R.T)]
        rep.check(bool(onT) and onT[-1][0] == 'clear' and all(e[0] == 'clear' for e in onT), nm + '/reset', f.where(), 'the tracking set is not empty afterwards')
        if any(e[0] == 'clear' for e in onP):
            rep.bad(nm + '/keep', f.where(), 'earlier dependencies of the clause are forgotten')
            continue
        if [e for e in sv if e[0] == 'clear'] and sv.index([e for e in sv if e[0] == 'clear'][0]) < max([sv.index(e) for e in onP] or [-1]):
            rep.bad(nm + '/order', f.where(), 'the tracking set is cleared before it is committed')
            continue
        # the union of T itself is implied: an input belongs to its own premises
        un = []
        wrong = None
        for e in onP:
            if e[0] == 'union' and same(e[2], R.T):
                continue
            i = elem_of_premises(e, R)
            if i is None:
                wrong = e
            else:
                un.append((i, e[3]))
        if wrong is not None:
            if e[0] == 'add' and elem_index(e[2], R.T) is not None:
                rep.check(None, nm + '/exact', f.where(), 'elements added one by one')
            else:
                rep.bad(nm + '/exact', f.where(), 'dependencies not coming from the tracked premises are added: %s' % pp(wrong[2]))
            continue
        rep.check(scan_cover(st, un, 0, (C.size(R.T),)), nm + '/union', f.where(), 'the dependencies of some tracked premise are not added')
        rep.check(not ws, nm + '/frame', f.where(), 'flags change')
    # ---- cancel / start
    f, C, outs = run('cancel_tracking', None)
    for st, v in outs:
        r = effects(C, st, f, 'cancel_tracking', [R.T])
        if r is not None:
            rep.check([e[0] for e in r[0]] == ['clear'] and not r[1], 'cancel_tracking', f.where(), 'the tracking set is not emptied')
    f, C, outs = run('start_tracking', None)
    for st, v in outs:
        r = effects(C, st, f, 'start_tracking', [R.T])
        if r is not None:
            rep.check(all(e[0] == 'clear' for e in r[0]) and not r[1], 'start_tracking', f.where(), 'starting to track adds dependencies')
    # ---- delete
    nm = 'delete_clause'
    f, C, outs = run(nm, None)
    for st, v in outs:
        r = effects(C, st, f, nm, [R.prem(id_)])
        if r is None:
            continue
        sv, ws = r
        rep.check(bool(sv) and all(e[0] == 'clear' for e in sv), nm + '/forget', f.where(), 'a deleted clause keeps its dependencies, which the next clause with this identifier inherits')
        rep.check(flag(ws, R.used, id_) == 0, nm + '/in-use', f.where(), 'a deleted clause stays in use')
    # ---- query
    nm = 'get_dependencies'
    f, C, outs = run(nm, None)
    for st, v in outs:
        r = effects(C, st, f, nm, [])
        if r is None:
            continue
        v = ('&', v[1]) if type(v) is tuple and v[0] == 'loc' else v
        rep.check(True if same(v, R.prem(id_)) else None if is_unknown(v) else False, nm, f.where(), 'get_dependencies returns %s' % pp(v))
        rep.check(not r[0] and not r[1], nm + '/frame', f.where(), 'a query changes the tracker')


def same_size(k, src):
    return type(k) is tuple and k[0] in ('==', '<') and any(type(x) is tuple and x[0] == 'call' and len(x) == 3 and same(x[2], src) for x in k[1:])


def elem_index(x, setaddr):
    """index when x is the element of the set at an iteration position"""
    if type(x) is tuple and x[0] == 'm' and x[1][0] == 'E' and same(x[1][1], setaddr):
        return x[1][2]
    return None


def canon(x, setaddr):
    return x[1][1]


def elem_of_premises(e, R):
    """position in the tracking set of the clause whose premises are united"""
    if e[0] != 'union':
        return None
    a = e[2]
    if a[0] == '&' and a[1][0] == 'F' and a[1][2] == R.premises:
        b = a[1][1]
        if type(b) is tuple and b[0] == '&' and b[1][0] == 'E' and b[1][1] == R.C:
            return elem_index(b[1][2], R.T)
    return None
