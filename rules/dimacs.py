"""I01: reading a DIMACS file adds exactly its clauses, variables, weights and aliases."""
import struct
from rules.options import *

N = NS + 'NapSAT::'
STATUS = ('F', THIS, N + '_status')
WRITING = ('F', THIS, N + '_writing_clause')


class DC(OC):
    """strings and input streams are values: each read is a term over the stream it reads from"""
    opaque = ('NapSAT::start_clause', 'NapSAT::add_literal', 'NapSAT::finalize_clause', 'NapSAT::add_clause', 'NapSAT::internal_add_clause', 'NapSAT::var_allocate',
              'NapSAT::new_variable', 'decompress_xz', 'decompress_bz2')
    sentinel = None

    def setup(self, eng, st):
        OC.setup(self, eng, st)
        if self.sentinel is False:
            st.store[('F', THIS, N + '_sentinel')] = 0
        elif self.sentinel:
            st.store[('F', THIS, N + '_sentinel')] = ('new', 'sentinel')

    def inline(self, eng, fid, qn, depth):
        q = qn.split('<')[0]
        return not q.startswith('sentinel') and not any(q in (NS + o, o) for o in self.opaque)

    def call(self, eng, st, c):
        r = self.io(eng, st, c)
        return OC.call(self, eng, st, c) if r is None else r

    def ret(self, eng, st, val, fn, depth):
        if not depth and not eng.returned:
            self.emit(st, 'uncaught')

    def put(self, eng, st, l, v, c):
        s = absint.S(c.ctx, c.node)
        eng.mutate(st, ('&', l), s, v)
        st.store[eng.norm(st, l)] = v

    def io(self, eng, st, c):
        q = c.qn if c.name.startswith('operator') else c.qn.split('<')[0]
        nm = c.name.split('<')[0] if not c.name.startswith('operator') else c.name
        rec = c.qn.rsplit('::', 1)[0].split('<')[0]
        args = list(c.args)
        loc = lambda x: x[1] if type(x) is tuple and x[0] in ('loc', '&') and type(x[1]) is tuple else None
        val = lambda x: eng.read(st, loc(x)) if loc(x) is not None else x
        T = lambda n, *a: ('call', 'io::' + n) + a
        stream = lambda t: 'stream' in t or 'basic_ios' in t
        if q in ('decompress_xz', 'decompress_bz2', NS + 'decompress_xz', NS + 'decompress_bz2') and len(args) == 2 and loc(args[1]) is not None:
            a = val(args[0])
            self.emit(st, 'call', nm, (a,))
            self.put(eng, st, loc(args[1]), T('unpacked', nm, a), c)
            return [(st, T('unpack', nm, a))]
        if q.startswith('sentinel'):
            self.emit(st, 'call', nm, tuple(val(x) for x in args))
            return [(st, 0)]
        if nm == 'getline' and q == 'std::getline' and len(args) in (2, 3) and loc(args[0]) and loc(args[1]):
            s = val(args[0])
            d = eng.unloc(st, args[2]) if len(args) == 3 else 10
            self.put(eng, st, loc(args[1]), T('line', s, d), c)
            self.put(eng, st, loc(args[0]), T('adv', s, d), c)
            return [(st, ('loc', loc(args[0])))]
        if nm == 'operator>>':
            src, dst = (c.this, args[0]) if c.method else (args[0], args[1]) if len(args) == 2 else (None, None)
            if loc(src) and loc(dst) and (c.method or 'stream' in str((c.pt or [''])[0])):
                s = val(src)
                t = str((c.pt or ['', ''])[-1])
                k = 'word' if 'string' in t else 'num'
                self.put(eng, st, loc(dst), T(k, s), c)
                self.put(eng, st, loc(src), T('adv', s, k), c)
                return [(st, ('loc', loc(src)))]
        if nm == 'sscanf' and len(args) >= 2:
            x, f = eng.unloc(st, args[0]), eng.unloc(st, args[1])
            x = self.content(eng, st, x)
            for k, a in enumerate(args[2:]):
                if loc(a):
                    self.put(eng, st, loc(a), T('scan', x, f, k), c)
            return [(st, T('scanned', x, f))]
        if nm in ('stoi', 'stol', 'stoll', 'stod', 'stof') and q.startswith('std::'):
            x = val(args[0])
            more = tuple(eng.unloc(st, a) for a in args[2:])
            if len(args) > 1 and loc(args[1]):
                self.put(eng, st, loc(args[1]), T('used', nm, x), c)
            return [(st, T(nm, x) + (more if more not in ((), (10,)) else ()))]
        if rec in ('std::basic_string', 'std::__cxx11::basic_string', 'std::basic_string_view'):
            t = loc(c.this)
            x = eng.read(st, t) if t else c.this
            if x is None or c.name in ('basic_string', 'basic_string_view', '~basic_string'):
                return None
            av = [val(a) for a in args]
            if nm in ('size', 'length'):
                return [(st, T('size', x))]
            if nm == 'empty':
                return [(st, mk('==', T('size', x), 0))]
            if nm in ('compare', 'starts_with', 'ends_with', 'find', 'rfind', 'find_first_not_of', 'find_first_of', 'substr', 'contains'):
                return [(st, T(nm, x, *av))]
            if nm in ('operator[]', 'at', 'front') and len(av) <= 1:
                return [(st, T('at', x, *(av or [0])))]
            if nm in ('c_str', 'data'):
                return [(st, T('text', x))]
            if nm in ('begin', 'cbegin'):
                return [(st, T('begin', x))]
            if nm in ('end', 'cend'):
                return [(st, T('end', x))]
            if nm == 'erase' and t:
                self.put(eng, st, t, T('erase', x, *av), c)
                return [(st, T('begin', x))]
            if nm in ('operator=', 'assign') and len(av) == 1 and t:
                self.put(eng, st, t, av[0], c)
                return [(st, ('loc', t))]
            if nm == 'clear' and t:
                self.put(eng, st, t, ('str', ''), c)
                return [(st, 0)]
            return None
        if nm in ('abs', 'labs', 'isspace', 'isdigit') and len(args) == 1:
            return [(st, ('call', nm, eng.unloc(st, args[0])))]
        if q in ('std::find_if', 'std::find_if_not') and len(args) == 3:
            return [(st, T(nm, *[eng.unloc(st, a) for a in args]))]
        if c.method and loc(c.this) and stream(rec):
            x = eng.read(st, loc(c.this))
            if nm == 'ignore':
                n = eng.unloc(st, args[0]) if args else 1
                self.put(eng, st, loc(c.this), T('adv', x, ('skip', n)), c)
                return [(st, ('loc', loc(c.this)))]
            if nm == 'operator bool':
                return [(st, mk('!', mk('==', T('ok', x), 0)))]
            if nm in ('operator!', 'fail'):
                return [(st, mk('==', T('ok', x), 0))]
            if nm == 'is_open':
                return [(st, mk('!', mk('==', T('open', x), 0)))]
            if nm == 'str' and not args:
                return [(st, T('str', x))]
        return None

    def content(self, eng, st, x):
        return x[2] if type(x) is tuple and x[:2] == ('call', 'io::text') else x

    def handled(self, eng, st, c, name, args):
        return None


def isnum(s):
    """what stoi makes of a text: (value, characters used) or None"""
    import re
    m = re.match(r'\s*[+-]?\d+', s)
    return (int(m.group()), m.end()) if m and -2**31 <= int(m.group()) < 2**31 else None


def isflt(s):
    import re
    m = re.match(r'\s*[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)', s)
    return (float(m.group()), m.end()) if m else None


class Ev:
    """value of terms and facts for one representative line (and token) of the file"""

    def __init__(self, P, E, st, line=None, tok=None, name=None, more=(), ok=(1, 1)):
        self.P, self.E, self.st, self.line, self.tok, self.name, self.more, self.end = P, E, st, line, tok, name, dict(more), ok
        self.memo = {}

    def __call__(self, t):
        if type(t) in (int, bool):
            return int(t)
        if type(t) is not tuple or not t:
            return None
        if t not in self.memo:
            self.memo[t] = None
            self.memo[t] = self.ev(t)
        return self.memo[t]

    def ev(self, t):
        s = strip(t)
        if s in self.more:
            return self.more[s]
        k = t[0]
        if k == 'str':
            return t[1]
        if k == 'cast':
            return self(t[-1])
        if t == ('p', 0, ''):
            return self.name
        if k == 'ctor' and ('basic_string' in str(t[1]) and 'stream' not in str(t[1])):
            if len(t) == 2:
                return ''
            a = [x for x in t[2:] if not (type(x) is tuple and x[:2] == ('ctor', 'std::allocator'))]
            return self(a[0]) if len(a) == 1 else '' if not a else None
        if k == 'call' and str(t[1]).startswith('io::'):
            return self.io(t[1][4:], [x for x in t[2:] if not (type(x) is tuple and x[:1] == ('v',))], t)
        if k == 'call' and str(t[1]).startswith('std::operator') and len(t) >= 4:
            x, y = self(t[2]), self(t[3])
            return None if type(x) is not str or type(y) is not str else int((x == y) == t[1].endswith('==')) if t[1].endswith(('==', '!=')) else None
        if k == 'call' and t[1] == 'std::size' and len(t) >= 3:
            x = self(t[2])
            return len(x) if type(x) is str else None
        if k == 'call' and str(t[1]).split('::')[-1] in ('abs', 'labs') and len(t) >= 3:
            x = self(t[2])
            return None if x is None else abs(x)
        if k == 'call' and str(t[1]).split('::')[-1] in ('isspace', 'isdigit') and len(t) >= 3:
            x = self(t[2])
            return None if x is None else int(chr(x).isspace() if 'space' in t[1] else chr(x).isdigit())
        if k == 'call' and t[1] in ('napsat::Tlit',) and len(t) == 4:
            a, b = self(t[2]), self(t[3])
            return None if a is None or b is None else 2 * a + b
        if k == '?' and len(t) == 4:
            c = self(t[1])
            return None if c is None else self(t[2] if c else t[3])
        if k == 'u-' or k == '-' and len(t) == 2:
            x = self(t[1])
            return None if x is None else -x
        xs = [self(x) for x in t[1:]]
        if k == '==' and len(xs) == 2 and None not in xs:
            return int(xs[0] == xs[1])
        if any(type(x) is not int for x in xs):
            return None
        return evt((k,) + tuple(xs), {})

    def stream(self, t):
        """(text, position, good) of a stream"""
        if type(t) is not tuple:
            return None
        if t[0] == 'ctor' and 'stream' in str(t[1]):
            a = [x for x in t[2:]]
            if a and not (type(a[0]) is tuple and a[0][:1] == ('ctor',) and 'stream' in str(a[0][1])):
                s = self(a[0])
                return (s, 0, 1) if type(s) is str else None
            return None
        if t[0] == 'call' and t[1] == 'io::adv':
            r = self.stream(t[2])
            return self.step(r, t[3])[1] if r else None
        return None

    def step(self, r, how):
        """(what is read, stream afterwards)"""
        s, p, g = r
        if type(how) is tuple and how[0] == 'skip':
            n = self(how[1])
            return ('', (s, min(len(s), p + n), g)) if n is not None else ('', (s, p, 0))
        if how in ('word', 'num'):
            while p < len(s) and s[p].isspace():
                p += 1
            e = p
            while e < len(s) and not s[e].isspace():
                e += 1
            return s[p:e], (s, e, int(g and e > p))
        d = self(how)
        if d is None or p >= len(s) or not g:
            return '', (s, p, 0)
        e = s.find(chr(d), p)
        return (s[p:], (s, len(s), 1)) if e < 0 else (s[p:e], (s, e + 1, 1))

    def io(self, n, a, t):
        if n in ('line', 'word', 'num'):
            r = self.stream(a[0])
            if r is not None:
                w = self.step(r, a[1] if n == 'line' else n)[0]
                return w if n != 'num' else (isnum(w) or (None,))[0]
            return self.line if n == 'line' and strip(a[1]) == 10 else self.tok
        if n == 'ok':
            r = self.stream(a[0])
            if type(a[0]) is tuple and a[0][:1] == ('ctor',) and 'ifstream' in str(a[0][1]):
                return self.more.get('open')
            return r[2] if r is not None else self.end[0 if type(a[0]) is tuple and a[0][:2] == ("call", "io::adv") and strip(a[0][3]) == 10 else 1]
        if n in ('unpack', 'open'):
            return self.more.get(n)
        x = self(a[0]) if a else None
        if n == 'scanned' or n == 'scan':
            f = self(a[1])
            return scan(x, f, a[2] if n == 'scan' else None) if type(x) is str and type(f) is str else None
        if n in ('stoi', 'stol', 'stoll'):
            r = isnum(x) if type(x) is str and len(a) == 1 else None
            return r and r[0]
        if n in ('stod', 'stof'):
            r = isflt(x) if type(x) is str else None
            return r and (r[0] if n == 'stod' else struct.unpack('f', struct.pack('f', r[0]))[0])
        if n == 'used':
            x = self(a[1])
            r = (isflt(x) if a[0] in ('stod', 'stof') else isnum(x)) if type(x) is str else None
            return r and r[1]
        if type(x) is not str:
            return None
        y = [self(b) for b in a[1:]]
        if n == 'size':
            return len(x)
        if n == 'text':
            return x
        if n == 'at':
            return None if type(y[0]) is not int else ord(x[y[0]]) if y[0] < len(x) else 0
        if n == 'compare':
            if len(y) == 3 and None not in y:
                x, y = x[y[0]:y[0] + y[1]], y[2:]
            return None if len(y) != 1 or type(y[0]) is not str else (x > y[0]) - (x < y[0])
        if n in ('starts_with', 'ends_with') and len(y) == 1:
            z = chr(y[0]) if type(y[0]) is int else y[0]
            return None if z is None else int(x.startswith(z) if n[0] == 's' else x.endswith(z))
        if n in ('find', 'rfind') and y and y[0] is not None and None not in y:
            z = chr(y[0]) if type(y[0]) is int else y[0]
            r = x.find(z, *(y[1:2])) if n == 'find' else x.rfind(z, 0, y[1] + len(z)) if len(y) > 1 else x.rfind(z)
            return r if r >= 0 else 2**64 - 1
        if n == 'substr' and None not in y:
            return x[(y[0] if y else 0):][:(y[1] if len(y) > 1 else None)]
        if n in ('find_first_not_of', 'find_first_of') and y and y[0] is not None:
            z = chr(y[0]) if type(y[0]) is int else y[0]
            return next((i for i, ch in enumerate(x) if (ch in z) == (n == 'find_first_of')), 2**64 - 1)
        if n == 'erase':
            return self.erase(x, a[1:])
        return None

    def erase(self, x, a):
        p = [self.where(x, b) for b in a]
        if len(p) == 2 and None not in p:
            return x[:p[0]] + x[p[1]:]
        return None

    def where(self, x, b):
        if type(b) is tuple and b[:2] == ('call', 'io::begin'):
            return 0
        if type(b) is tuple and b[:2] == ('call', 'io::end'):
            return len(x)
        if type(b) is tuple and b[:2] in (('call', 'io::find_if'), ('call', 'io::find_if_not')):
            lo, hi = self.where(x, b[2]), self.where(x, b[3])
            if lo is None or hi is None:
                return None
            for i in range(lo, hi):
                r = self.pred(b[4], ord(x[i]))
                if r is None:
                    return None
                if bool(r) == (b[1] == 'io::find_if'):
                    return i
            return hi
        return self(b)

    def pred(self, lam, ch):
        f = self.P.funcs.get(lam[1]) if type(lam) is tuple and lam[:1] in (('lambda',), ('func',)) else None
        if f is None:
            return None
        if f.fid not in PRED:
            PRED[f.fid] = Run(self.P, self.E, OC.R(), None, '', func=f, cls=DC).outs
        for st, ret in PRED[f.fid]:
            V = Ev(self.P, self.E, st, more={('p', 0, ''): ch})
            if all(v is None or bool(v) == b for g, b in st.facts.items() for v in [V(g)]):
                return V(ret)
        return None

    def okay(self):
        """the path can be taken: no fact contradicts the representative, and no conversion of it would have thrown"""
        for f, b in self.st.facts.items():
            v = self(f)
            if v is not None and bool(v) != b:
                return False
        return True

    def thrown(self, *ts):
        """a conversion the path relies on fails for this representative"""
        for t in list(self.st.facts) + list(ts):
            for c in walk(t, lambda u: u[0] == 'call' and u[1] in ('io::stoi', 'io::stod', 'io::used')):
                x = self(c[2] if c[1] != 'io::used' else c[3])
                kind = c[1][4:] if c[1] != 'io::used' else c[2]
                if type(x) is str and (isflt(x) if kind == 'stod' else isnum(x)) is None:
                    return True
        return False


PRED = {}


def scan(x, f, k):
    """sscanf for %d and %u"""
    import re
    out = []
    p = i = 0
    while i < len(f):
        if f[i].isspace():
            while p < len(x) and x[p].isspace():
                p += 1
            i += 1
        elif f[i] == '%':
            if f[i + 1:i + 2] not in ('d', 'u', 'i'):
                return None
            m = re.match(r'\s*([+-]?\d+)', x[p:])
            if not m:
                break
            out.append(int(m.group(1)) & 0xffffffff if f[i + 1] == 'u' else int(m.group(1)))
            p += m.end()
            i += 2
        else:
            if x[p:p + 1] != f[i]:
                break
            p += 1
            i += 1
    return len(out) if k is None else out[k] if k < len(out) else None


# ------------------------------------------------------------ the rules
def check(P, E, rep):
    for n, f in (('reading the file', reading), ('the source', source), ('decompression', unpack), ('owners', owners)):
        with rep.guard(n):
            f(P, E, rep)


VSIZE = ('call', 'std::size', ('&', ('F', THIS, N + '_vars')))
GROW = ('NapSAT::var_allocate', 'NapSAT::new_variable')
CLAUSE = ('NapSAT::start_clause', 'NapSAT::add_literal', 'NapSAT::finalize_clause', 'NapSAT::add_clause', 'NapSAT::internal_add_clause')

# line, what it is, details (variable, value, number of variables so far)
LINES = [
    ('', 'skip'), ('   ', 'skip'), ('c', 'skip'), ('c a comment 1 2 0', 'skip'), ('c', 'skip'), ('  c 1 0', 'skip'), ('\tc 1 0', 'skip'), ('comment 3 0', 'any'), ('cwx', 'skip?'),
    ('%', 'stop'), ('% 0', 'stop'),
    ('1 -2 0', 'data'), ('-1 0', 'data'), ('  4 0', 'data'), ('\t7 0', 'data'), ('0', 'data'), ('12', 'data'),
    ('p cnf 3 2', 'head', 3), ('p cnf 12 7', 'head', 12), (' p cnf 5 5', 'head', 5), ('p cnf 0 0', 'head', 0),
    ('p cnf', 'bad'), ('p cnf x 3', 'bad'), ('p cnf 3', 'bad'), ('p cnf -3 2', 'bad'),
    ('cw 1 2.5', 'weight', 1, 2.5), ('cw 7 -0.25', 'weight', 7, -0.25), ('cw 3 4', 'weight', 3, 4.0), ('cw 4 0.1', 'weight', 4, 0.1), (' cw 2 1e3', 'weight', 2, 1000.0),
    ('cw 1x 2', 'skip?'), ('cw 1 2x', 'skip?'), ('cw 1', 'skip?'), ('cw 1 2 3', 'skip?'), ('cw -1 2', 'skip?'), ('cw 0 2', 'skip?'),
    ('co 1 x', 'alias', 1, 'x'), ('co 5 name', 'alias', 5, 'name'), ('co -1 x', 'skip?'), ('co 0 x', 'skip?'), ('co 1', 'skip?'), ('co 1 a b', 'skip?'), ('co 1x y', 'skip?'),
]
TOKENS = [('1', 1), ('-1', -1), ('5', 5), ('-5', -5), ('+7', 7), ('123456', 123456), ('-99999', -99999), ('0', 0), ('1x', None), ('3.5', None), ('0x', None), ('-2-', None)]


def seg(ev, key):
    """the events since the loop was last entered"""
    for k in range(len(ev) - 1, -1, -1):
        if ev[k][0] == 'L' and (ev[k][1], ev[k][2], ev[k][3]) == key:
            return ev[k + 1:]
    return None


def reads(x, how):
    """terms mention something read from a stream: lines or parts of them"""
    return has(x, lambda t: t[0] == 'call' and t[1] == 'io::line' and strip(t[3]) == 10) if how == 'line' else \
        has(x, lambda t: t[0] == 'call' and (t[1] == 'io::word' or t[1] == 'io::line' and strip(t[3]) != 10) and type(t[2]) is tuple and t[2][0] in ('lv', 'm', 'loc', 'r', 'u'))


def effects_of(ev):
    return [e for e in ev if e[0] == 'call' and e[1] in GROW + CLAUSE + ('set_variable_alias',) or
            e[0] == 'w' and has(e[1], lambda t: t == THIS) or e[0] in ('vmut', 'push', 'pop', 'clear', 'resize')]


def show(ev):
    return ', '.join('%s %s' % (e[1] if e[0] == 'call' else e[0], ' '.join(short(x) for x in e[2:] if type(x) is not str)) for e in effects_of(ev))[:200] or 'nothing'


class Paths:
    def __init__(self, P, E, rep):
        fs = [f for f in P.fn(N + 'parse_dimacs')]
        if not fs:
            raise AnalysisError('anchor vanished: ' + N + 'parse_dimacs')
        self.P, self.E = P, E
        self.r = Run(P, E, OC.R(), rep, 'parse_dimacs', func=fs[0], cls=DC)
        ls = [l for l in loops(self.r) if any(reads(e, 'line') or reads(tuple(st.facts), 'line') for st, ev in l.iters for e in [tuple(ev)])]
        self.tok = [l for l in ls if l.iters and any(calls2(ev, 'NapSAT::add_literal') and not any(e[0] == 'L' and self.has_add(e) for e in ev) for st, ev in l.iters)]
        self.line = [l for l in ls if l not in self.tok and any(e[0] == 'L' and any((e[1], e[2], e[3]) == t.key for t in self.tok) for st, ev in l.iters for e in ev)]
        if len(self.tok) != 1 or len(self.line) != 1:
            raise AnalysisError('the loops over lines and over the tokens of a line are not recognised (%d, %d)' % (len(self.line), len(self.tok)))
        self.tok, self.line = self.tok[0], self.line[0]

    def has_add(self, e):
        return any(k == (e[1], e[2], e[3]) and any(calls2(ev, 'NapSAT::add_literal') for st, ev in it) for k, es, it in self.r.loops())

    def V(self, st, **kw):
        return Ev(self.P, self.E, st, **kw)


def calls2(ev, name):
    return [e[2] for e in ev if e[0] == 'call' and e[1] == name]


def const(P, enum, name):
    for q, e in P.enums.items():
        if q == enum:
            return e['vals'].index(name)
    raise AnalysisError('no enumeration ' + enum)


def reading(P, E, rep):
    H = Paths(P, E, rep)
    j = J(rep, 'reading a DIMACS file', H.r.where)
    ERR, UNS = const(P, NS + 'status', 'ERROR'), const(P, NS + 'status', 'UNSAT')
    failed = lambda ev: any(e[0] == 'w' and e[1] == STATUS and strip(e[2]) == ERR for e in ev)
    inner = lambda ev: any(e[0] == 'L' and (e[1], e[2], e[3]) == H.tok.key for e in ev)
    outs = [(st, s, ret) for st, ret in H.r.outs for s in [seg(st.cl[0], H.line.key)] if s is not None and s[-1:] != (('uncaught',),)]
    first = first_flag(H)
    for rp in LINES:
        line, kind = rp[0], rp[1]
        sizes = (rp[2], rp[2] + 1) if kind in ('head', 'weight', 'alias') else (5,)
        for size in sizes:
            for sent in (0, 1):
                if kind == 'any' or kind == 'alias' and not sent:
                    continue
                more = {VSIZE: size, ('m', ('F', THIS, N + '_sentinel'), 0): sent}
                if kind in ('head', 'bad'):
                    more.update(first)
                what = lambda ev='': 'line %r with %d variables%s: %s' % (line, size, ' and an observer' if sent else '', show(ev) if type(ev) is not str else ev)
                ok = lambda st: H.V(st, line=line, more=more, ok=(1, 0)).okay()
                its = [(st, ev) for st, ev in H.line.iters if ok(st) and not H.V(st, line=line, more=more).thrown(*[x for e in ev for x in e if type(x) is tuple])]
                os = [(st, ev, ret) for st, ev, ret in outs if ok(st) and not H.V(st, line=line, more=more).thrown() and not inner(ev)]
                V = lambda st: H.V(st, line=line, more=more)
                RU = {'skip': 'comments and empty lines add nothing', 'skip?': 'a malformed weight or alias adds nothing', 'stop': 'reading ends at a % line', 'data': 'every other line is read number by number',
                      'head': 'the header makes the variables it declares', 'bad': 'a malformed header is refused', 'weight': 'a cw line sets the weight of its variable',
                      'alias': 'a co line names its variable'}[kind]
                if kind in ('skip', 'skip?'):
                    for st, ev in its:
                        j(not effects_of(ev) and not inner(ev), RU, lambda: what(ev))
                    for st, ev, ret in os:
                        j(False, RU, lambda: what('reading ends with ' + short(ret)))
                    if not its:
                        j(None, RU, what('no path'))
                elif kind == 'stop':
                    for st, ev in its:
                        j(False, RU, lambda: what('reading goes on'))
                    for st, ev, ret in os:
                        j(fin(V(st)(ret), 1), RU, lambda: what('answer ' + short(ret)))
                    if not os and not its:
                        j(None, RU, what('no path'))
                elif kind == 'data':
                    for st, ev in its:
                        j(inner(ev) and not [e for e in effects_of(ev[:next(i for i, e in enumerate(ev) if e[0] == 'L')]) if e[0] == 'call' and e[1] not in CLAUSE] or False, RU, lambda: what(ev))
                    for st, ev, ret in os:
                        j(False, RU, lambda: what('reading ends with ' + short(ret)))
                    if not its:
                        j(None, RU, what('no path'))
                elif kind == 'bad':
                    for st, ev in its:
                        j(False, RU, lambda: what('reading goes on'))
                    for st, ev, ret in os:
                        j(fin(V(st)(ret), 0) and failed(ev) or (None if V(st)(ret) is None else False), RU, lambda: what('answer %s, %s' % (short(ret), show(ev))))
                    if not os and not its:
                        j(None, RU, what('no path'))
                else:
                    for st, ev, ret in os:
                        j(False, RU, lambda: what('reading ends with ' + short(ret)))
                    for st, ev in its:
                        v = V(st)
                        g = calls2(ev, 'NapSAT::var_allocate')
                        gv = [v(strip_arg(a)) for a in g]
                        grown = [x for x in gv if x is not None and x >= size]
                        if kind == 'head' and first_unknown(st, first):
                            continue
                        j(None if None in gv else not calls2(ev, 'NapSAT::new_variable') and (grown == [rp[2]] if size <= rp[2] else not grown), RU + ' (variables)' if kind != 'head' else RU, lambda: what(ev))
                        cl = [e for e in effects_of(ev) if e[0] == 'call' and e[1] in CLAUSE] or inner(ev)
                        j(not cl, RU, lambda: what(ev))
                        if kind == 'weight':
                            w = [e for e in ev if e[0] == 'w' and has(e[1], lambda t: type(t[-1]) is str and t[-1].endswith('::weight'))]
                            vals = [(v(index(e[1])), v(e[2])) for e in w]
                            old = any(has(e[2], lambda t: t[0] == 'm' and 'weight' in str(t[1])) for e in w)
                            j((False if old else None) if any(None in x for x in vals) else vals == [(rp[2], rp[3])], RU, lambda: what('weights set: %s' % (vals if not old else 'from the weight before')))
                            if w and g:
                                j(ev.index(w[0]) > max(i for i, e in enumerate(ev) if e[0] == 'call' and e[1] == 'NapSAT::var_allocate'), RU + ' (variables)', lambda: what('the weight is set before the variable is made'))
                        if kind == 'alias':
                            a = [e[2] for e in ev if e[0] == 'call' and e[1] == 'set_variable_alias']
                            vals = [(v(strip_arg(x[1:2])), v(x[2])) for x in a if len(x) == 3]
                            j(None if any(None in x for x in vals) else vals == [(rp[2], rp[3])], RU, lambda: what('aliases set: %s' % vals))
                    if not its:
                        j(None, RU, what('no path'))
    tokens(H, j, outs, ERR, UNS, failed)
    ends(H, j, outs, inner)
    n, bad = try_covers(P, H.r.f, rep)
    for f in helpers(P, E, H.r.f):
        k, b = try_covers(P, f, rep)
        n, bad = n + k, bad + b
    j(not bad if n else None, 'a malformed number does not end the program', '; '.join(bad))
    j.flush('each number is added as a literal of its variable and sign', 'a 0 ends the clause', 'a token that is no number is refused', 'a clause is begun before its first literal',
            'reading ends at the end of the input', 'an early end means unsatisfiable')


def helpers(P, E, f):
    """the static functions of the same file f calls"""
    seen, todo = set(), [f]
    while todo:
        g = todo.pop()
        for n in g.nodes.values():
            h = P.funcs.get(n.get('fid')) if n.get('fid') else None
            if h is not None and h.fid not in seen and h.fid != f.fid and h.file == f.file and '::' not in h.qn.replace(NS, '', 1).replace('NapSAT::', 'x::' if h.qn.startswith(N) else '', 1):
                seen.add(h.fid)
                todo.append(h)
    return [P.funcs[x] for x in seen]


def strip_arg(a):
    """the last argument of a call event"""
    a = a[-1] if type(a) is tuple and a and type(a[-1]) in (tuple, int) else a
    return a


def index(l):
    """the element a location lies in"""
    e = [t for t in walk(l, lambda t: t[0] == 'E')]
    return e[0][2] if e else None


def fin(v, want):
    return None if v is None else bool(v) == bool(want)


def first_flag(H):
    """the flag telling that no clause line was read yet: true on entry, and cleared by iterations over data"""
    out = {}
    for st, ev in H.line.iters:
        for f in st.facts:
            for lv in walk(f, lambda t: t[0] == 'lv' and H.line.own(t)):
                if H.line.init(lv) == {1} and lv not in out:
                    out[strip(lv)] = 1
    return {k: v for k, v in out.items() if any(H.line.next(st, k) == 0 and H.V(st, line='1 0', ok=(1, 0)).okay() for st, ev in H.line.iters)}


def first_unknown(st, first):
    return False


def tokens(H, j, outs, ERR, UNS, failed):
    LIT, FIN, BADT, BEG, EARLY = ('each number is added as a literal of its variable and sign', 'a 0 ends the clause', 'a token that is no number is refused',
                                  'a clause is begun before its first literal', 'an early end means unsatisfiable')
    wr = ('m', WRITING, 0)
    for tok, n in TOKENS:
        for writing in (0, 1):
            more = {wr: writing}
            ok = lambda st, ev: H.V(st, line='1 0', tok=tok, more=more, ok=(1, 1)).okay() and not H.V(st, line='1 0', tok=tok).thrown(*[x for e in ev for x in e if type(x) is tuple])
            def begin(st):
                # the clause is open or not when the token is read: what the path found out about it first
                for f, b in st.facts.items():
                    s = strip(f)
                    if s == ('==', wr, 0):
                        return not b
                return None
            its = [(st, ev) for st, ev in H.tok.iters if ok(st, ev)]
            os = [(st, s, ret) for st, _, ret in outs for s in [seg(st.cl[0], H.tok.key)] if s is not None and ok(st, s)]
            left = [(st, s) for st, ev in H.line.iters for s in [seg(ev, H.tok.key)] if s is not None and ok(st, s)]
            what = lambda ev: 'token %r%s: %s' % (tok, ' within a clause' if writing else '', show(ev) if type(ev) is not str else ev)
            rule = LIT if n else FIN if n == 0 else BADT
            if n is None:
                for st, ev in its:
                    j(False, rule, lambda: what('reading goes on'))
                for st, ev in left:
                    j(False, rule, lambda: what('the rest of the line is left out'))
                for st, ev, ret in os:
                    v = H.V(st, tok=tok)(ret)
                    j(None if v is None else not v and failed(ev) and not calls2(ev, 'NapSAT::add_literal'), rule, lambda: what('answer %s, %s' % (short(ret), show(ev))))
                if not (its or os or left):
                    j(None, rule, what('no path'))
                continue
            for st, ev in its + [(st, ev) for st, ev, ret in os]:
                v = H.V(st, line='1 0', tok=tok, more=more)
                a = [v(strip_arg(x)) for x in calls2(ev, 'NapSAT::add_literal')]
                f = calls2(ev, 'NapSAT::finalize_clause')
                s = calls2(ev, 'NapSAT::start_clause')
                other = [e for e in ev if e[0] == 'call' and e[1] in ('NapSAT::add_clause', 'NapSAT::internal_add_clause')]
                if other:
                    j(None, rule, lambda: what(ev))
                    continue
                if n:
                    j(None if None in a else a == [2 * abs(n) + (n > 0)], rule, lambda: what('literals added: %s' % a))
                    j(not f, FIN, lambda: what('the clause is ended'))
                else:
                    j(len(f) == 1 and not calls2(ev, 'NapSAT::add_literal'), rule, lambda: what(ev))
                b = begin(st)
                pos = [i for i, e in enumerate(ev) if e[0] == 'call' and e[1] in CLAUSE]
                if s:
                    j(ev[pos[0]][1] == 'NapSAT::start_clause' and len(s) == 1, BEG, lambda: what(ev))
                    if b:
                        j(False, BEG, lambda: what('the clause is begun again'))
                else:
                    j(None if b is None else bool(b), BEG, lambda: what('no clause is begun'))
            for st, ev, ret in os:
                u = st.decide(mk('==', H.r.fin(st, STATUS), UNS))
                v = H.V(st, tok=tok)(ret)
                j(None if v is None else bool(v) and u is True if n == 0 else False, EARLY, lambda: what('reading ends with %s; %s' % (short(ret), facts(st)[:150])))
            for st, ev in left:
                j(False, 'every number of a line is read', lambda: what('the rest of the line is left out'))
            if not its:
                j(None, rule, what('no path'))
    j(True, 'every number of a line is read')


def ends(H, j, outs, inner):
    RU = 'reading ends at the end of the input'
    n = 0
    for st, ev, ret in outs:
        if inner(ev) or not H.V(st, line='', ok=(0, 0)).okay() or not any(has(f, lambda t: t[0] == 'call' and t[1] == 'io::ok') for f in st.facts):
            continue
        n += 1
        v = H.V(st)(ret)
        j(fin(v, 1), RU, lambda: 'answer ' + short(ret))
        w = [b for f, b in st.facts.items() if strip(f) == ('==', ('m', WRITING, 0), 0)]
        f = calls2(ev, 'NapSAT::finalize_clause')
        j(True if f and w != [True] or w == [True] and not f else None if not w else False, 'a clause whose 0 is missing is ended there', lambda: show(ev))
    if not n:
        j(None, RU, 'no path')


# ------------------------------------------------------------ the source
def source(P, E, rep):
    H = Paths(P, E, rep)
    j = J(rep, 'the source of a DIMACS file', H.r.where)
    ERR = const(P, NS + 'status', 'ERROR')
    lvs = {t[2] for st, ev in H.line.iters for f in st.facts for t in walk(f, lambda t: t[0] == 'call' and t[1] == 'io::line' and strip(t[3]) == 10)}
    for name, unp in (('f.cnf', None), ('dir/g.dimacs', None), ('f.cnf.xz', 'decompress_xz'), ('f.cnf.bz2', 'decompress_bz2'), ('xz', None), ('a.xz.cnf', None)):
        RU = 'a plain file is read as it is' if not unp else 'a compressed file is decompressed by its kind'
        n = 0
        for st in H.line.entries:
            V = Ev(P, E, st, name=name, more={'unpack': 1, 'open': 1})
            if not V.okay():
                continue
            for lv in lvs:
                x = H.line.at(st, lv[2]) if lv[0] == 'lv' else None
                n += 1
                if x is None:
                    j(None, RU, name)
                    continue
                un = set(t[2] for t in walk(x, lambda t: t[0] == 'call' and t[1] == 'io::unpacked'))
                fl = list(walk(x, lambda t: t[0] == 'ctor' and str(t[1]).endswith('ifstream')))
                fl = [t for t in fl if len(t) > 2 and t[2] == ('p', 0, '')]
                j((un == {unp} if un else None if not fl else False) if unp else (False if un else True if fl else None), RU, lambda: '%s: %s' % (name, short(x)[:160]))
        if not n:
            j(None, RU, name + ': no path')
        m = 0
        for st, ret in H.r.outs:
            if seg(st.cl[0], H.line.key) is not None:
                continue
            for good in (0, 1):
                V = Ev(P, E, st, name=name, more={'unpack': good, 'open': good})
                if not V.okay():
                    continue
                m += not good
                v = V(ret)
                fail = any(e[0] == 'w' and e[1] == STATUS and strip(e[2]) == ERR for e in st.cl[0])
                j(None if v is None else not good and not v and fail, 'a file that cannot be read is an error', lambda: '%s%s: answer %s' % (name, '' if good else ' unreadable', short(ret)))
        for st in H.line.entries:
            if Ev(P, E, st, name=name, more={'unpack': 0, 'open': 0}).okay():
                j(False, 'a file that cannot be read is an error', lambda: name + ' is read all the same')
        if not m:
            j(None, 'a file that cannot be read is an error', name + ': no path')
    j.flush()


class UC(DC):
    """the decompression libraries: what each call is given and what it leaves"""
    opaque = ()
    keeplocals = True

    def call(self, eng, st, c):
        nm = c.name.split('<')[0]
        s = absint.S(c.ctx, c.node)
        if nm.startswith('get_suppress'):
            return [(st, 1)]
        loc = lambda x: x[1] if type(x) is tuple and x[0] in ('loc', '&') and type(x[1]) is tuple else None
        val = lambda x: eng.unloc(st, x)
        if nm == 'lzma_code' and len(c.args) == 2 and loc(c.args[0]):
            fld = lambda n: next((k for k in st.store if k[0] == 'F' and k[1] in (loc(c.args[0]), ('&', loc(c.args[0]))) and k[2].endswith('::' + n)), ('F', ('&', loc(c.args[0])), '(anonymous struct)::' + n))
            r = ('r', s, nm)
            self.emit(st, 'call', nm, tuple(eng.read(st, fld(n)) for n in ('avail_in', 'next_in', 'avail_out', 'next_out')) + (val(c.args[1]), r))
            for n in ('avail_in', 'avail_out', 'next_in', 'next_out'):
                self.put(eng, st, fld(n), ('call', 'io::' + n, r), c)
            return [(st, r)]
        if nm in ('BZ2_bzRead', 'BZ2_bzReadOpen') and c.args and loc(c.args[0]):
            r = ('r', s, nm)
            self.put(eng, st, loc(c.args[0]), ('call', 'io::error', r), c)
            if nm == 'BZ2_bzRead':
                self.codes = getattr(self, 'codes', set()) | {loc(c.args[0])}
            self.emit(st, 'call', nm, tuple(val(a) for a in c.args[1:]) + (r,))
            return [(st, r)]
        if nm == 'BZ2_bzReadClose' and c.args and loc(c.args[0]):
            self.put(eng, st, loc(c.args[0]), ('call', 'io::error', ('r', s, nm)), c)
            return [(st, 0)]
        if nm == 'readsome' or nm == 'read' and c.method:
            r = ('r', s, nm)
            self.emit(st, 'call', nm, tuple(val(a) for a in c.args) + (r,))
            return [(st, r)]
        if nm == 'write' and c.method:
            self.emit(st, 'call', nm, (c.this,) + tuple(val(a) for a in c.args))
            return [(st, c.this)]
        return DC.call(self, eng, st, c)


def unpack(P, E, rep):
    for fn, lib, end in (('decompress_xz', 'lzma_code', 1), ('decompress_bz2', 'BZ2_bzRead', 4)):
        f = next((f for f in P.funcs.values() if f.qn.split('::')[-1] == fn), None)
        ANS, OUT, IN = 'success is answered only at the end of the compressed data', 'every piece is passed on as it was decompressed', 'no compressed data is dropped'
        if f is None:
            rep.undecided('%s: %s' % (fn, ANS), '', '', 'function not found')
            continue
        r = Run(P, E, OC.R(), None, fn, func=f, cls=UC)
        j = J(rep, fn, r.where)
        code = lambda t: t if type(t) is tuple and t[:1] == ('r',) and t[2] == lib else ('call', 'io::error', None) if False else None
        ls = loops(r)
        heads = {}
        for l in ls:
            heads.setdefault(l.key, l)

        def ended(st, e):
            """the state of decompression e is what the path knows to be the end"""
            return any(b and strip(k) == ('==', strip(e), end) for k, b in st.facts.items())

        def states(st):
            """the terms that stand for the result of the last decompression"""
            out = []
            for k in st.facts:
                for t in walk(k, lambda t: t[0] in ('r', 'call', 'lv', 'lvb', 'm')):
                    if t[0] == 'r' and t[2] == lib and lib == 'lzma_code' or t[:2] == ('call', 'io::error') and t[2][2] == lib:
                        out.append(t)
                    elif t[0] in ('lv', 'lvb') and any(l.own(t) and any(decoded(l.next(s, t)) for s, ev in l.iters) for l in ls):
                        out.append(t)
            return out

        def decoded(v):
            return type(v) is tuple and (v[:1] == ('r',) and v[2] == lib and lib == 'lzma_code' or v[:2] == ('call', 'io::error') and v[2][:1] == ('r',) and v[2][2] == lib)
        # answers
        n = 0
        for st, ret in r.outs:
            v = ret if type(ret) is int else None
            if v == 0:
                continue
            n += 1
            s = strip(ret)
            if type(s) is tuple and s[0] == '==' and s[2] == end and (decoded(s[1]) or s[1][0] in ('lv', 'lvb') or s[1][0] == 'm' and s[1][1] in getattr(r.C, 'codes', ())):
                j(True, ANS)
                continue
            ss = states(st)
            if v is None:
                # the answer by what the decompressor can say
                cs = [t for t in walk(ret, lambda t: decoded(t) or t[0] in ('lv', 'lvb') or t[0] == 'm' and t[1] in getattr(r.C, 'codes', ()))]
                if cs:
                    vals = [x for x in range(-9, 12) if evt(strip(ret), {strip(cs[0]): x}) == 1 and not any(evt(strip(f), {strip(cs[0]): x}) == (0 if b else 1) for f, b in st.facts.items())]
                    unk = any(evt(strip(ret), {strip(cs[0]): x}) is None for x in range(-9, 12))
                    j(None if unk or not vals else vals == [end], ANS, lambda: 'success is answered for %s' % vals)
                    continue
                if has(ret, lambda t: t[0] == 'r' or t[:2] == ('call', 'io::error')):
                    j(any(ended(st, x) for x in ss), ANS, lambda: 'answer %s, %s' % (short(ret), facts(st)[:200]))
                    continue
            j(True if any(ended(st, x) for x in ss) else None if v is None else False, ANS, lambda: 'answer %s, %s' % (short(ret), facts(st)[:200]))
        if not n:
            j(False, ANS, 'success is never answered')
        # pieces: what follows each decompression, in an iteration of the loop it lies in or on the way out
        runs = [(st, ev) for l in ls for st, ev in l.iters] + [(st, tuple(st.cl[0])) for st, _ in r.outs]
        m = 0
        for st, ev in runs:
            for i, e in enumerate(ev):
                if e[0] != 'call' or e[1] != lib:
                    continue
                m += 1
                a = e[2]
                if lib == 'lzma_code':
                    buf, want = a[3], ('-', a[2], ('call', 'io::avail_out', a[5]))
                    size, code = want, a[5]
                    bad = [k for k, b in st.facts.items() if strip(k)[:1] == ('==',) and strip(k)[1] == code and (b and strip(k)[2] not in (0, 1))]
                    fine = any(b and strip(k) in (('==', code, 0), ('==', code, 1)) for k, b in st.facts.items())
                    neither = all(any(not b and strip(k) == ('==', code, x) for k, b in st.facts.items()) for x in (0, 1))
                else:
                    buf, size, code = a[1], a[3], ('call', 'io::error', a[3])
                    neither = any(not b and strip(k) == ('<', 0, a[3]) or b and strip(k) in (('<', a[3], 1), ('==', a[3], 0)) for k, b in st.facts.items())
                    bad, fine = [], True
                nxt = [x for x in ev[i + 1:] if x[0] == 'call' and x[1] in (lib, 'write')]
                out = [x for x in nxt[:1] if x[1] == 'write']
                if neither or bad:
                    continue
                if not out:
                    # the piece may be passed on after the loop; leaving it out altogether is a loss
                    j(False if not any(x[0] == 'L' for x in ev[i + 1:]) else None, OUT, lambda: 'not passed on; ' + facts(st)[:200])
                    continue
                w = out[0][2]
                if not (len(w) == 3 and type(w[0]) is tuple):
                    j(None, OUT, short(w))
                    continue
                okb = strip(w[1]) == strip(buf) if buf is not None else None
                same_ = strip(w[2]) == strip(size) or bool(eqt(st, w[2], size))
                j(None if okb is None else bool(okb and same_), OUT, lambda: 'passed on: (%s, %s) of %s' % (short(w[1]), short(w[2]), short(size)))
        if not m:
            j(None, OUT, 'no decompression found')
        if lib == 'lzma_code':
            k = 0
            for st, ev in runs:
                for i, e in enumerate(ev):
                    if e[0] == 'call' and e[1] == 'lzma_code':
                        a = e[2]
                        src = [x for x in ev[:i] if x[0] == 'call' and x[1] in ('readsome', 'read')]
                        if src and type(a[0]) is tuple and a[0][:1] == ('r',):
                            k += 1
                            j(strip(a[1]) == strip(src[-1][2][0]) and strip(a[0]) == strip(src[-1][2][-1]), IN, lambda: 'decompressed from (%s, %s)' % (short(a[1]), short(a[0])))
                # the next piece is read only once this one is used up: the decompressor left room in its output, or no input
                dec = [e for e in ev if e[0] == 'call' and e[1] == 'lzma_code']
                lp = [i for i, e in enumerate(ev) if e[0] == 'L']
            for l in ls:
                for st, ev in l.iters:
                    if not any(e[0] == 'call' and e[1] in ('readsome', 'read') for e in ev):
                        continue
                    dec = [e for e in ev if e[0] == 'call' and e[1] == 'lzma_code']
                    if not dec:
                        continue
                    k += 1
                    x = dec[-1][2][5]
                    if [e[1] for e in ev if e[0] == 'call' and e[1] in ('readsome', 'read', 'lzma_code')][0] == 'lzma_code':
                        continue
                    room = any(not b and strip(f) == ('==', ('call', 'io::avail_out', x), 0) or b and strip(f) in (('<', 0, ('call', 'io::avail_out', x)), ('==', ('call', 'io::avail_in', x), 0)) or not b and strip(f) == ('<', 0, ('call', 'io::avail_in', x))
                               or not b and strip(f) == ('<', ('call', 'io::avail_out', x), 1) or b and strip(f) == ('==', x, 1) for f, b in st.facts.items())
                    if not room and not any(e[0] == 'L' for e in ev[ev.index([e for e in ev if e[0] == 'call' and e[1] in ('readsome', 'read')][0]):]) and any(e[0] == 'L' for e in ev):
                        room = None
                    j(room, IN, lambda: 'the next piece is read though this one may not be used up; ' + facts(st)[:200])
            if not k:
                j(None, IN, 'no path')
        j.flush(ANS, OUT)


def owners(P, E, rep):
    pass
