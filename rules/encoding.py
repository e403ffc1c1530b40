"""T01: literals, variables, values, levels and clause names are encoded consistently.

The other rules take the operations of these types as built in; here their bodies are analysed themselves."""
from nslib import absint
from nslib.absint import Client
from rules.solver import *

NS = 'napsat::'
M32 = 0xffffffff
BITS = [1 << k for k in range(32)]
VALS = sorted({0, 1, 2, 3, 4, 5, 6, 7, M32, M32 - 1, M32 - 2, 0x7fffffff, 0x80000000, 0x80000001, 0x55555555, 0xaaaaaaaa} | set(BITS))
FEW = (0, 1, 2, 3, 6, 7, 0x7fffffff, 0x80000000, M32 - 1, M32)


class TC(Client):
    def __init__(self):
        self.seen = []

    def call(self, eng, st, c):
        q = c.qn.split('<')[0]
        if q.startswith('std::vector') or q.startswith('std::'):
            st.cl = st.cl + ((c.name, c.this, tuple(eng.unloc(st, a) for a in c.args)),)
        return None


class Fn:
    """one operation: its paths as terms over the object and the arguments"""

    def __init__(self, P, E, f):
        self.f = f
        self.lid = {p['lid']: j for j, p in enumerate(f.params)}
        self.eng, self.outs = absint.start(P, E, TC(), f)

    def ev(self, t, a, p):
        if type(t) in (int, bool):
            return int(t) & M32 if int(t) < 0 else int(t)
        if type(t) is not tuple or not t:
            return None
        o = t[0]
        if o == 'p':
            return p[t[1]] if t[1] < len(p) else None
        if o == 'g':
            return self.gl.get(t[1])
        if o == 'obj' and len(t[2]) == 1:
            return self.ev(t[2][0][1], a, p)
        if o == 'loc':
            return self.ev(('m', t[1], 0), a, p)
        if o == 'm':
            l = t[1]
            while l[0] == 'F' and str(l[2]).endswith('::value'):
                l = l[1]
            while l[0] in ('&', 'D') and len(l) > 1:
                l = l[1]
            if l == ('this',):
                return a
            if l[0] == 'L':
                return p[self.lid[l[1]]] if l[1] in self.lid else None
            return self.ev(l, a, p) if l[0] == 'p' else None
        if o == 'cast':
            return evt((o, t[1], self.ev(t[2], a, p)), {}) if self.ev(t[2], a, p) is not None else None
        if o == 'call' and t[1] in ('std::hash', 'std::size'):
            return None
        xs = [self.ev(x, a, p) for x in t[1:]]
        if None in xs or not xs:
            return None
        if o == '~':
            return ~xs[0] & M32
        v = evt((o,) + tuple(xs), {})
        return v if v is None else v & M32

    gl = {}

    def run(self, a, p, what='ret'):
        """the answer (or the value of the object afterwards) for an object and arguments; None: not known"""
        got = set()
        for st, ret in self.outs:
            fs = [(self.ev(k, a, p), b) for k, b in st.facts.items()]
            if any(v is not None and bool(v) != b for v, b in fs):
                continue
            if what == 'ret':
                got.add(self.ev(ret, a, p))
            else:
                w = [v for k, v in st.store.items() if k[0] == 'F' and k[1] == ('this',)] + [v for k, v in st.store.items() if k[:2] == ('D', ('this',))]
                got.add(self.ev(w[0], a, p) if w else a)
        return got.pop() if len(got) == 1 else None


def check(P, E, rep):
    save = absint.WRAP, absint.WRAPVAL
    absint.WRAP, absint.WRAPVAL, absint.EXACT = set(), set(), True
    try:
        for n, g in (('types', types), ('constants', constants), ('tables', tables)):
            with rep.guard(n):
                g(P, E, rep)
    finally:
        absint.WRAP, absint.WRAPVAL, absint.EXACT = save + (False,)


def types(P, E, rep):
    V = dict(zip(P.enums[NS + 'Tval']['vals'], P.enums[NS + 'Tval']['nums']))
    T, F, U = V['TRUE'], V['FALSE'], V['UNDEF']
    Fn.gl = {g['qn']: g['cv'] for g in P.globals.values() if 'cv' in g}
    CMP = {'operator==': lambda a, b: a == b, 'operator!=': lambda a, b: a != b, 'operator<': lambda a, b: a < b, 'operator>': lambda a, b: a > b, 'operator<=': lambda a, b: a <= b, 'operator>=': lambda a, b: a >= b}
    ARI = {'operator+': lambda a, b: a + b, 'operator-': lambda a, b: a - b, 'operator^': lambda a, b: a ^ b}
    DEF = {'Tvar': 0, 'Tlit': 0, 'Tlevel': M32, 'Tclause': M32}
    NEG, VAR, POL, MAKE, VAL, ORD, STEP, SUM, NEW, XOR = ('negation changes the sign and nothing else', 'the variable is kept', 'the sign is kept', 'is put together from its variable and sign', 'is judged by its sign and the value of its variable',
                                                     'is compared by its number', 'steps by one', 'is moved by the number given', 'starts as given, or as the undefined one', 'differences are taken bit by bit')
    pairs = [(a, b) for a in FEW for b in FEW]
    for f in sorted(P.funcs.values(), key=lambda f: (f.qn, str([p['t'] for p in f.params]))):
        parts = f.qn.split('::')
        if len(parts) != 3 or parts[0] != 'napsat' or parts[1] not in DEF:
            continue
        ty, nm = parts[1], parts[2]
        pt = [p['t'].replace('const ', '').replace('&', '').replace(NS, '').strip() for p in f.params]
        name = '%s::%s(%s)' % (ty, nm, ', '.join(pt))
        cases, rule = [], None              # (object, arguments, what, expected)
        if nm == ty:
            if not pt:
                cases, rule = [(None, (), 'obj', DEF[ty])], NEW
            elif pt in (['unsigned int'], [ty]):
                cases, rule = [(None, (v,), 'obj', v) for v in VALS], NEW
            elif ty == 'Tlit' and pt == ['Tvar', 'unsigned int']:
                cases, rule = [(None, (v, s), 'obj', 2 * v + s) for v in VALS if v <= M32 >> 1 for s in (0, 1)], MAKE
            elif ty == 'Tlit' and pt == ['Tvar', 'Tval']:
                cases, rule = [(None, (v, s), 'obj', 2 * v + (s == T)) for v in VALS if v <= M32 >> 1 for s in (T, F)], MAKE
            elif ty == 'Tlit' and pt == ['Tvar', 'bool']:
                cases, rule = [(None, (v, s), 'obj', 2 * v + s) for v in VALS if v <= M32 >> 1 for s in (0, 1)], MAKE
        elif nm in CMP and len(pt) == 1:
            cases, rule = [(a, (b,), 'ret', int(CMP[nm](a, b))) for a, b in pairs], ORD
        elif nm in ARI and len(pt) == 1:
            cases, rule = [(a, (b,), 'ret', ARI[nm](a, b) & M32) for a, b in pairs], XOR if '^' in nm else SUM
        elif nm[:-1] in ARI and nm.endswith('=') and len(pt) == 1:
            cases, rule = [(a, (b,), w, ARI[nm[:-1]](a, b) & M32) for a, b in pairs for w in ('obj',) + (('ret',) if f.ret != 'void' else ())], XOR if '^' in nm else SUM
        elif nm in ('operator++', 'operator--'):
            d = 1 if nm[-1] == '+' else -1
            cases, rule = [(a, (0,) * len(pt), 'obj', (a + d) & M32) for a in VALS], STEP
            if f.ret != 'void':
                cases += [(a, (0,) * len(pt), 'ret', a if pt else (a + d) & M32) for a in VALS]
        elif ty == 'Tlit' and nm == 'operator~':
            cases, rule = [(a, (), 'ret', a ^ 1) for a in VALS], NEG
        elif ty == 'Tlit' and nm == 'var':
            cases, rule = [(a, (), 'ret', a >> 1) for a in VALS], VAR
        elif ty == 'Tlit' and nm == 'pol':
            cases, rule = [(a, (), 'ret', a & 1) for a in VALS], POL
        elif ty == 'Tlit' and nm in ('satisfied', 'falsified', 'undefined') and pt == ['Tval']:
            want = {'satisfied': lambda a, v: v == (T if a & 1 else F), 'falsified': lambda a, v: v == (F if a & 1 else T), 'undefined': lambda a, v: v == U}[nm]
            cases, rule = [(a, (v,), 'ret', int(want(a, v))) for a in VALS for v in (T, F, U)], VAL
        if not cases:
            continue
        fn = Fn(P, E, f)
        rep.engine(fn.eng)
        j = J(rep, name, f.where())
        for a, p, what, want in cases:
            got = fn.run(a, p, what)
            ok = None if got is None else (bool(got) == bool(want) if f.ret == 'bool' and what == 'ret' else got == want)
            j(ok, rule, lambda: 'for %s: %s instead of %s' % (', '.join(str(x) for x in ((a,) if a is not None else ()) + p), got, want))
        j.flush(rule)


def constants(P, E, rep):
    G = {g['qn'][len(NS):]: g.get('cv') for g in P.globals.values() if g['qn'].startswith(NS)}
    j = J(rep, 'the distinguished values', 'include/SAT-types.hpp')
    DIS, TOP, ROOT, TV = 'are told apart', 'are no level or clause a search reaches', 'the root level is the lowest, and no literal the number nothing has', 'true, false and undefined are three values'
    for pre in ('LEVEL_', 'CLAUSE_'):
        xs = {k: v for k, v in G.items() if k.startswith(pre)}
        j(None if None in xs.values() or not xs else len(set(v & M32 for v in xs.values())) == len(xs), DIS, lambda: str(xs))
        for k, v in xs.items():
            if k != 'LEVEL_ROOT':
                j(None if v is None else (v & M32) >= 0xffff0000, TOP, lambda: '%s = %s' % (k, v))
        # what an object starts as is the undefined one
        j(None if xs.get(pre + 'UNDEF') is None else xs[pre + 'UNDEF'] & M32 == M32, TOP, lambda: str(xs))
    j(None if G.get('LEVEL_ROOT') is None else G['LEVEL_ROOT'] == 0, ROOT, lambda: str(G.get('LEVEL_ROOT')))
    j(None if G.get('LIT_UNDEF') is None else G['LIT_UNDEF'] >> 1 == 0, ROOT, lambda: str(G.get('LIT_UNDEF')))
    e = P.enums[NS + 'Tval']
    j(len(set(e['nums'])) == len(e['nums']) and all(0 <= n <= 3 for n in e['nums']), TV, lambda: str(dict(zip(e['vals'], e['nums']))))
    s = P.enums.get(NS + 'status')
    if s:
        j(len(set(s['nums'])) == len(s['nums']), 'the outcomes of solving are told apart', lambda: str(s))
    j.flush(DIS, TOP, ROOT, TV)
    for f in P.fn(NS + 'status_to_string') if s else []:
        fn = Fn(P, E, f)
        rep.engine(fn.eng)
        j, TXT = J(rep, 'status_to_string', f.where()), 'every outcome is reported under a text of its own'
        txt = {}
        for k, v in zip(s['vals'], s['nums']):
            got = set()
            for st, ret in fn.outs:
                if not any(x is not None and bool(x) != b for x, b in ((fn.ev(c, None, (v,)), b) for c, b in st.facts.items())):
                    t = list(walk(ret, lambda t: t[0] == 'str')) if type(ret) is tuple else []
                    got |= {t[0][1] if len(t) == 1 else None}
            txt[k] = got.pop() if len(got) == 1 else None
        j(None if None in txt.values() else len(set(txt.values())) == len(txt), TXT, lambda: str(txt))
        j.flush(TXT)


def tables(P, E, rep):
    """vectors indexed by a variable, literal, level or clause: the position is its number"""
    IDX, SIZE, ROOM = 'the entry of a name is at its number', 'the size counts the entries', 'room is made for the number given'
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: (f.qn, str([p['t'] for p in f.params]))):
        if '::indexed_vector<' not in f.qn or not f.file.endswith('SAT-types.hpp'):
            continue
        nm = f.qn.rsplit('>::', 1)[-1]
        if nm not in ('operator[]', 'size', 'resize', 'reserve'):
            continue
        n += 1
        fn = Fn(P, E, f)
        rep.engine(fn.eng)
        j = J(rep, f.qn.replace(NS, '') + '/%d' % len(f.params) + (' const' if f.ret.startswith('const') else ''), f.where())
        for st, ret in fn.outs:
            if nm == 'operator[]':
                es = [t for t in walk(ret, lambda t: t[0] == 'E')]
                for v in FEW:
                    x = fn.ev(es[0][2], None, (v,)) if es else None
                    j(None if x is None else x == v and has(es[0][1], lambda t: t == ('this',)), IDX, lambda: 'entry %s for %s' % (x, v))
                j.flush(IDX)
            elif nm == 'size':
                c = [t for t in walk(ret, lambda t: t[:2] == ('call', 'std::size'))] if type(ret) is tuple else []
                for k in (0, 1, 5):
                    x = None
                    if c:
                        def sub(t):
                            return k if type(t) is tuple and t == c[0] else tuple(sub(y) for y in t) if type(t) is tuple else t
                        x = fn.ev(sub(ret), None, ())
                    j(None if x is None else x == k, SIZE, lambda: 'answers %s for %s' % (x, k))
            else:
                cs = [e for e in st.cl if e[0] == nm]
                for v in FEW:
                    x = fn.ev(cs[0][2][0], None, (v,) + (0,) * (len(f.params) - 1)) if len(cs) == 1 else None
                    j(None if x is None else x == v, ROOM, lambda: '%s for %s' % (x, v))
        j.flush(*([SIZE] if nm == 'size' else [ROOM] if nm != 'operator[]' else []))
    if not n:
        rep.undecided('indexed tables', '', '', 'no function found')
