"""Helpers shared by the contract rules: modelled vectors, order closure, obligation bookkeeping."""
import os
import traceback
from contextlib import contextmanager
from . import absint
from .absint import Client, Engine, State, mk, pp, subst, occurs, Blowup, Retry
from .ir import AnalysisError

OK, BAD, UND = 'discharged', 'violated', 'undecided'


class Report:
    """obligations of one property"""

    def __init__(self, pid):
        self.pid = pid
        self.obl = []
        self.notes = []
        self.funcs = set()
        self.paths = 0
        self.states = 0
        self.sites = 0

    def add(self, rule, where, status, detail=''):
        self.obl.append({'rule': rule, 'where': where, 'status': status, 'detail': detail})

    def ok(self, rule, where, detail=''):
        self.add(rule, where, OK, detail)

    def bad(self, rule, where, detail):
        self.add(rule, where, BAD, detail)

    def und(self, rule, where, detail):
        self.add(rule, where, UND, detail)

    def check(self, cond, rule, where, detail):
        """cond: True / False / None"""
        self.add(rule, where, OK if cond else UND if cond is None else BAD, '' if cond else detail)
        return cond

    def engine(self, eng):
        self.funcs |= {eng.P.funcs[x].qn for x in eng.visited_funcs}
        self.paths += eng.paths
        self.states += eng.steps

    @contextmanager
    def guard(self, rule, where='-'):
        """an analysis that gives up leaves its obligation undecided instead of failing the run"""
        try:
            yield
        except AnalysisError as e:
            self.und(rule, where, str(e))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.und(rule, where, 'analysis gave up: %s: %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))

    def violations(self):
        return [o for o in self.obl if o['status'] == BAD]


# ---------------------------------------------------------------- order facts
def leq(st, a, b, strict=False):
    """is a <= b (a < b) implied by the comparison facts of this path (graph closure, no arithmetic)?"""
    if type(a) is int and type(b) is int:
        return a < b if strict else a <= b
    if a == b and not strict:
        return True
    edges = {}
    for k, v in st.facts.items():
        if k[0] == '<':
            x, y = (k[1], k[2]) if v else (k[2], k[1])
            edges.setdefault(x, []).append((y, v))
        elif k[0] == '==' and v:
            edges.setdefault(k[1], []).append((k[2], False))
            edges.setdefault(k[2], []).append((k[1], False))
    seen, work = set(), [(a, False)]
    while work:
        x, s = work.pop()
        if x == b and (s or not strict):
            return True
        if (x, s) in seen:
            continue
        seen.add((x, s))
        for y, w in edges.get(x, ()):
            work.append((y, s or w))
    return False


def is_unknown(t):
    """term contains something the engine gave up on"""
    if type(t) is not tuple:
        return False
    if t and t[0] in ('u', 'app'):
        return True
    return any(is_unknown(x) for x in t if type(x) is tuple)


VEC_MUT = {'push_back', 'emplace_back', 'pop_back', 'resize', 'clear', 'insert', 'erase', 'reserve', 'assign', 'shrink_to_fit', 'swap'}


class VecClient(Client):
    """models the std::vector-like fields in self.vecs ({field qn}); everything else as usual.
    st.cl = (events, ((key, value), ...))"""
    peel = True
    vecs = ()
    opaque_fids = ()

    def initial(self):
        return ((), ())

    def reset(self):
        """forget results collected outside the states (the analysis starts over)"""

    # -- small functional record
    def kv(self, st, k, d=None):
        for a, b in st.cl[1]:
            if a == k:
                return b
        return d

    def setkv(self, st, k, v):
        ev, kvs = st.cl
        st.cl = (ev, tuple(x for x in kvs if x[0] != k) + ((k, v),))

    def emit(self, st, *e):
        st.cl = (st.cl[0] + (e,), st.cl[1])

    def events(self, st):
        return st.cl[0]

    # -- vectors
    def vecq(self, a):
        if type(a) is tuple and a[0] == '&' and a[1][0] == 'F' and a[1][2] in self.vecs:
            return a
        return None

    def vsize(self, st, a):
        return self.kv(st, ('n', a), ('call', 'std::size', a))

    def inline(self, eng, fid, qn, depth):
        return fid not in self.opaque_fids

    def call(self, eng, st, c):
        a = c.this
        q = self.vecq(a)
        if q is not None:
            r = self.vcall(eng, st, c, a)
            if r is not None:
                return [(st, r)]
        f = eng.P.funcs.get(c.fid)
        if f is not None and 'indexed_vector' in f.qn and f.name if hasattr(f, 'name') else False:
            pass
        return self.call2(eng, st, c)

    def call2(self, eng, st, c):
        return None

    def vcall(self, eng, st, c, a):
        nm = c.name
        fn, n = c.fn, c.fn.nodes[c.node]
        t = n.get('t', '?')
        args = [eng.unloc(st, x) for x in c.args]
        N = self.vsize(st, a)
        site = absint.S(c.ctx, c.node)
        if nm in ('operator[]', 'at') and args:
            return ('loc', ('E', a, args[0], t.replace('const ', '')))
        if nm in ('size', 'length'):
            return N
        if nm == 'empty':
            return mk('==', N, 0)
        if nm == 'back':
            return ('loc', ('E', a, mk('-', N, 1), t.replace('const ', '')))
        if nm == 'front':
            return ('loc', ('E', a, 0, t.replace('const ', '')))
        if nm in ('begin', 'cbegin', 'data'):
            return ('iter', a, 0)
        if nm in ('end', 'cend'):
            return ('iter', a, N)
        if nm in ('push_back', 'emplace_back'):
            v = args[0] if len(args) == 1 else ('obj', '?') + tuple(args) if args else 0
            eng.write(st, ('E', a, N, self.elt(eng, a)), v, site)
            self.setkv(st, ('n', a), mk('+', N, 1))
            self.emit(st, 'push', a, v, N)
            return 0
        if nm == 'pop_back':
            self.setkv(st, ('n', a), mk('-', N, 1))
            self.emit(st, 'pop', a, mk('-', N, 1))
            return 0
        if nm == 'resize':
            self.setkv(st, ('n', a), args[0])
            self.emit(st, 'resize', a, args[0], args[1] if len(args) > 1 else None)
            return 0
        if nm in ('reserve', 'shrink_to_fit', 'capacity'):
            return 0 if nm != 'capacity' else None
        if nm == 'clear':
            self.setkv(st, ('n', a), 0)
            self.emit(st, 'clear', a)
            return 0
        if nm in VEC_MUT:
            self.emit(st, 'vmut', a, nm, tuple(args))
            self.setkv(st, ('n', a), ('u', site, 'n'))
            eng.mutate(st, a, site, ('u', site, nm))
            return ('u', site, nm)
        return None

    def elt(self, eng, a):
        if a[1][0] == 'E':
            t = str(a[1][3])
            return t[t.index('<') + 1:t.rindex('>')].split(',')[0].strip() if '<' in t else '?'
        q = a[1][2]
        rec, nm = q.rsplit('::', 1)
        r = eng.P.records.get(rec)
        for f in (r or {}).get('fields', ()):
            if f['name'] == nm:
                t = f['t']
                if '<' in t:
                    return t[t.index('<') + 1:t.rindex('>')].split(',')[0].strip()
        return '?'


def analyse(P, E, client, f, setup=None, this=('this',), args=None):
    """all exits of f; loop-variable hypotheses that fail are dropped and the analysis restarts (Engine.induct)"""
    black, dead, promoted = {}, set(), False
    for attempt in range(40):
        eng = Engine(P, E, client)
        eng.black, eng.dead = black, dead
        client.reset()
        st = State()
        if getattr(f, 'record', None) and not getattr(f, 'static', False):
            st.env[('', 'this')] = this
        for j, p in enumerate(f.params):
            v = ('p', j, '') if args is None or args[j] is None else args[j]
            if '&' in p['t']:
                st.env[('', p['lid'])] = ('ref', ('D', v, p['t'].replace('&', '').replace('const ', '').strip()))
            else:
                st.store[('L', p['lid'], '')] = v
        st.cl = client.initial()
        if setup:
            setup(eng, st)
        try:
            outs = eng.run(f, st, '')
        except Retry:
            eng.upd = {}
            continue
        if not eng.promote():
            return eng, outs
    raise Blowup(f.qn + ': loop variables do not settle')


def field_of(P, rec, pred):
    r = P.records.get(rec)
    if r is None:
        return None
    c = [f for f in r['fields'] if pred(f)]
    return rec + '::' + c[0]['name'] if len(c) == 1 else None
