"""B01/B02: the sparse bit set, as the transition relation extracted from every public operation.

The stored form is an invariant: one existence word per 63 data words (top bit: another one follows), then the non-zero data words in order. Every path and loop transition
of an operation is tabulated over that form (word boundaries, metadata boundaries, one to three metadata words): exactly one transition must apply, and the form and answer it
leads to must be those of the mathematical set."""
from nslib.spec import *
from nslib import absint
from rules.solver import SC, Loop, lvars, strip, J, walk, THIS

M64 = (1 << 64) - 1
NEXT = 1 << 63
DATA = NEXT - 1
BITS = 'bitset::_bits'
FUEL = 4000


class Stuck(Exception):
    """a term the tabulation cannot evaluate"""


class Other(Exception):
    """the path does not apply"""


class BC(SC):
    keepfacts = True
    vecs = (BITS,)

    class R:
        vecs = (BITS,)

    def __init__(self, **k):
        super().__init__(self.R, **k)

    def setup(self, eng, st):
        pass

    def vecq(self, a):
        if type(a) is not tuple:
            return None
        if a[0] == '&' and (a[1][0] == 'L' or a[1][0] == 'F' and a[1][2] == BITS) or a[0] == 'p':
            return a
        return None

    def vroot(self, a):
        return a[1][2] if a[0] == '&' and a[1][0] == 'F' else None

    def elt(self, eng, a):
        return 'unsigned long'

    def inline(self, eng, fid, qn, depth):
        return True

    def call2(self, eng, st, c):
        if c.name in ('remove', 'fill', 'fill_n', 'copy', 'copy_n', 'move') and c.fid not in eng.P.funcs:
            args = [eng.unloc(st, x) for x in c.args]
            site = absint.S(c.ctx, c.node)
            for x in args:
                if type(x) is tuple and x[0] == 'iter':
                    self.mutated(eng, st, x[1], site)
            self.emit(st, 'lib', c.name, tuple(args), site)
            return [(st, ('call', 'std::' + c.name + '@' + site))]
        return None

    def mutated(self, eng, st, a, site):
        u = ('u', site, 'any')
        eng.write(st, ('E', a, u, 'unsigned long'), u, 'w' + site, notify=False)
        for l in [l for l in st.store if l[0] == 'E' and l[1] == a]:
            del st.store[l]

    def vcall(self, eng, st, c, a):
        if c.name not in ('insert', 'erase', 'resize', 'assign', 'push_back', 'emplace_back', 'pop_back', 'clear'):
            return super().vcall(eng, st, c, a)
        args = [eng.unloc(st, x) for x in c.args]
        site = absint.S(c.ctx, c.node)
        self.emit(st, 'vec', c.name, a, tuple(args), site)
        self.mutated(eng, st, a, site)
        self.setkv(st, ('n', a), ('size@', a, 'w' + site))
        return args[0] if c.name in ('insert', 'erase') else 0

    def write(self, eng, st, loc, val, site):
        if loc[0] in ('F', 'E', 'D'):
            self.emit(st, 'w', loc, val, site)


class Fn:
    """extracted transition relation of one function"""

    def __init__(self, P, E, rep, f):
        self.f = f
        self.C = BC()
        self.eng, self.outs = analyse(P, E, self.C, f, setup=self.C.setup)
        rep.engine(self.eng)
        self.loops = {k: Loop(self, k, self.C.entries[k], self.C.iters.get(k, [])) for k in self.C.entries}
        self.lv = {k: lvars(l) for k, l in self.loops.items()}
        self.own = {k: 'b' + absint.S(k[0], k[2]) for k in self.loops}
        # loop variables that stand for a position inside a known array (the others may be whole pointers)
        self.asindex = set()
        sts = [st for st, _ in self.outs] + [st for l in self.loops.values() for st, _ in l.iters] + [st for l in self.loops.values() for st in l.entries]
        for st in sts:
            for t in walk(tuple(st.facts) + tuple(st.store.items()) + tuple(st.cl[0]), lambda t: t[0] in ('iter', 'E') and len(t) >= 3):
                for v in walk(t[2], lambda t: t[0] == 'lv' and len(t) == 3):
                    self.asindex.add(v)
        # what reference variables are bound to
        self.refs = {}
        for st in sts:
            for k, v in st.env.items():
                if type(v) is tuple and v[:1] == ('ref',):
                    self.refs[k] = v[1]


class Env:
    def __init__(self, fn, objs, args):
        self.fn = fn
        self.objs = objs                 # (object, field) -> name of its array
        self.args = args
        self.lv = {}
        self.arr = {}
        self.cell = {}
        self.snap = {}
        self.lib = {}
        self.fuel = [FUEL]

    def copy(self):
        e = Env.__new__(Env)
        e.fn, e.objs, e.args, e.fuel = self.fn, self.objs, self.args, self.fuel
        e.lv, e.arr, e.cell, e.snap, e.lib = dict(self.lv), dict(self.arr), dict(self.cell), dict(self.snap), dict(self.lib)
        return e

    def mark(self, stamp):
        self.snap[stamp] = (dict(self.arr), dict(self.cell))

    # -- names
    def obj(self, t):
        """identity of the object a base address denotes"""
        if t == THIS:
            return 'this'
        if t[0] == 'p':
            return 'p%d' % t[1]
        if t[0] == '&':
            l = t[1]
            if l[0] == 'L':
                return 'L%s%s' % (l[1], l[2])
            if l[0] == 'D':
                return self.obj(l[1])
            if l[0] == 'F':
                return (self.obj(l[1]), l[2])
        if t[0] == 'm':
            return self.obj(('&', t[1]))
        raise Stuck(t)

    def vec(self, t):
        o = self.obj(t)
        o = self.objs.get(o, o)
        if o not in self.arr:
            raise Stuck(t)
        return o

    # -- values
    def ev(self, t):
        if type(t) in (int, bool):
            return int(t)
        if type(t) is not tuple:
            raise Stuck(t)
        o = t[0]
        if o == 'm':
            return self.mem(t)
        if o == 'lv':
            if t not in self.lv:
                raise Stuck(t)
            return self.lv[t]
        if o == 'p':
            v = self.args.get(t[1])
            if v is None:
                raise Stuck(t)
            return v
        if o == 'cast':
            return self.ev(t[2])
        if o == 'iter':
            x = self.pos(t[1])
            return (x[0], x[1] + s64(self.ev(t[2])))
        if o == 'fv' and type(t[1]) is tuple and t[1][0] == 'lv' and len(t) == 3:
            k = [k for k, c in self.fn.own.items() if c == t[1][1]]
            r = self.fn.refs.get((k[0][0], t[1][2])) if k else None
            v = self.vec(('&', r)) if r else 'L%s%s' % (t[1][2], k[0][0]) if k else None
            a = self.at('x' + t[1][1][1:], 0).get(v)
            i = self.ev(t[2])
            if a is None or not 0 <= i < len(a):
                raise Stuck(t)
            return a[i]
        if o == 'size@':
            return len(self.at(t[2], 0)[self.vec(t[1])])
        if o == 'call':
            n = t[1].split('::')[-1] if type(t[1]) is str else ''
            if t[1] == 'std::operator==' and len(t) == 4:
                return int(self.content(t[2]) == self.content(t[3]))
            if t[1] == 'std::size' or n == 'size':
                return len(self.arr[self.vec(t[2])])
            if n.split('<')[0] in ('popcount', '__builtin_popcountll', '__builtin_popcountl', '__builtin_popcount'):
                return bin(self.ev(t[2]) & (M64 if n != '__builtin_popcount' else 0xFFFFFFFF)).count('1')
            if n.split('<')[0] in ('countr_zero', '__builtin_ctzll', '__builtin_ctzl'):
                x = self.ev(t[2]) & M64
                return (x & -x).bit_length() - 1 if x else 64
            if n in self.lib:
                return self.lib[n]
            raise Stuck(t)
        if o == '&' and len(t) == 2:
            return self.pos(t)
        if o in ('&&', '||'):
            x = self.ev(t[1])
            return int(bool(x and self.ev(t[2]))) if o == '&&' else int(bool(x or self.ev(t[2])))
        if o in ('ite', '?:'):
            return self.ev(t[2]) if self.ev(t[1]) else self.ev(t[3])
        if o == 'lb':
            return None
        xs = [self.ev(x) for x in t[1:]]
        p = [type(x) is tuple for x in xs]
        if o == '==' and len(xs) == 2:
            return int(xs[0] == xs[1]) if p[0] == p[1] and (not p[0] or xs[0][0] == xs[1][0]) else self.stuck(t)
        if o == '-' and len(xs) == 2 and all(p):
            return (xs[0][1] - xs[1][1]) & M64 if xs[0][0] == xs[1][0] else self.stuck(t)
        if o == '<' and all(p) and len(xs) == 2:
            return int(xs[0][1] < xs[1][1])
        if o in ('+', '-') and p[0] and len(xs) == 2 and not p[1]:
            return (xs[0][0], xs[0][1] + s64(xs[1]) * (1 if o == '+' else -1))
        if any(p):
            raise Stuck(t)
        try:
            r = OPS[o](*xs)
        except (KeyError, TypeError, ZeroDivisionError):
            raise Stuck(t)
        return r & M64

    def content(self, t):
        if type(t) is tuple and t[0] == 'm' and t[1][0] == 'F' and t[1][2] == BITS:
            return self.at(t[2], 0)[self.vec(('&', t[1]))]
        raise Stuck(t)

    def stuck(self, t):
        raise Stuck(t)

    def pos(self, a):
        """the array position an address denotes"""
        if type(a) is tuple and a[0] == '&' and a[1][0] == 'E':
            return (self.vec(a[1][1]), self.ev(a[1][2])) if not self.isp(a[1][1]) else self.shift(self.ev(a[1][1]), self.ev(a[1][2]))
        if type(a) is tuple and a[0] in ('&', 'p', 'this'):
            if not (a[0] == 'p' and a[1] in self.args and type(self.args[a[1]]) is tuple):
                return (self.vec(a), 0)
        x = self.ev(a)
        if type(x) is not tuple:
            raise Stuck(a)
        return x

    def isp(self, t):
        return type(t) is tuple and t[0] in ('iter', 'm', 'lv')

    def shift(self, p, d):
        if type(p) is not tuple:
            raise Stuck(p)
        return (p[0], p[1] + s64(d))

    def at(self, stamp, k):
        if stamp == 0 or stamp not in self.snap:
            if stamp != 0:
                raise Stuck(('stamp', stamp))
            return self.snap[0][k]
        return self.snap[stamp][k]

    def mem(self, t):
        loc, stamp = t[1], t[2]
        if loc[0] in ('E', 'D'):
            if loc[0] == 'D':
                v, i = self.pos(loc[1])
            else:
                v, i = self.pos(('&', loc))
            a = self.at(stamp, 0).get(v)
            if a is None or not 0 <= i < len(a):
                raise Stuck(t)
            return a[i]
        if loc[0] == 'F':
            k = (self.obj(loc[1]), loc[2])
            c = self.at(stamp, 1)
            if k not in c:
                raise Stuck(t)
            return c[k]
        raise Stuck(t)

    def fits(self, facts):
        """True: the path applies; False: it does not; raises Stuck when that cannot be told"""
        bad = None
        for f, v in facts.items():
            try:
                x = self.ev(f)
            except Stuck as e:
                bad = e
                continue
            if x is not None and bool(x) != v:
                return False
        if bad:
            raise bad
        return True

    def maybe(self, facts):
        try:
            return self.fits(facts)
        except Stuck:
            return True

    # -- effects
    def store(self, v, a):
        self.arr[v] = tuple(a)

    def apply(self, e):
        k = e[0]
        if k == 'w':
            loc, val, site = e[1], e[2], e[3]
            if loc[0] == 'F':
                o = (self.obj(loc[1]), loc[2])
                if loc[2] == BITS:
                    self.setvec(self.objs.get(o, o), val)
                else:
                    try:
                        self.cell[o] = self.ev(val)
                    except Stuck:
                        self.cell.pop(o, None)
            else:
                v, i = self.pos(loc[1]) if loc[0] == 'D' else self.pos(('&', loc))
                a = list(self.arr[v])
                if not 0 <= i < len(a):
                    raise Stuck(e)
                a[i] = self.ev(val)
                self.store(v, a)
            self.mark(site)
        elif k == 'vec':
            nm, v, args, site = e[1], self.vec(e[2]), e[3], e[4]
            a = list(self.arr[v])
            if nm in ('push_back', 'emplace_back'):
                a.append(self.ev(args[0]) if args else 0)
            elif nm == 'pop_back':
                a.pop()
            elif nm == 'clear':
                a = []
            elif nm == 'resize':
                n = self.ev(args[0])
                a = (a + [self.ev(args[1]) if len(args) > 1 else 0] * max(0, n - len(a)))[:n]
            elif nm == 'insert':
                p = self.pos(args[0])
                n, x = (1, args[1]) if len(args) == 2 else (s64(self.ev(args[1])), args[2])
                if p[0] != v or not 0 <= p[1] <= len(a) or not 0 <= n <= 64:
                    raise Stuck(e)
                a[p[1]:p[1]] = [self.ev(x)] * n
            elif nm == 'erase':
                p = self.pos(args[0])
                q = self.pos(args[1]) if len(args) > 1 else (v, p[1] + 1)
                if p[0] != v or q[0] != v or not 0 <= p[1] <= q[1] <= len(a):
                    raise Stuck(e)
                del a[p[1]:q[1]]
            else:
                raise Stuck(e)
            self.store(v, a)
            self.mark('w' + site)
        elif k == 'lib':
            nm, args, site = e[1], e[2], e[3]
            p, q = self.pos(args[0]), self.pos(args[1])
            if nm == 'remove':
                x = self.ev(args[2])
                a = list(self.arr[p[0]])
                if p[0] != q[0] or not 0 <= p[1] <= q[1] <= len(a):
                    raise Stuck(e)
                kept = [y for y in a[p[1]:q[1]] if y != x]
                a[p[1]:p[1] + len(kept)] = kept
                self.store(p[0], a)
                self.lib[nm + '@' + site] = (p[0], p[1] + len(kept))
            elif nm == 'fill':
                a = list(self.arr[p[0]])
                a[p[1]:q[1]] = [self.ev(args[2])] * (q[1] - p[1])
                self.store(p[0], a)
            else:
                raise Stuck(e)
            self.mark('w' + site)
        else:
            raise Stuck(e)

    def setvec(self, name, val):
        """the array gets a whole new content"""
        if type(val) is tuple and val[0] == 'ctor' and 'vector' in str(val[1]):
            xs = [x for x in val[2:] if not (type(x) is tuple and x[0] == 'ctor')]
            if not xs:
                self.arr[name] = ()
                return
            n = self.ev(xs[0])
            if n > 64 or len(xs) > 2:
                raise Stuck(val)
            self.arr[name] = (self.ev(xs[1]) if len(xs) == 2 else 0,) * n
            return
        if type(val) is tuple and val[0] == 'lv':
            for k, ctx in self.fn.own.items():
                if ctx == val[1]:
                    self.arr[name] = self.arr['L%s%s' % (val[2], k[0])]
                    return
        if type(val) is tuple and val[0] == 'm':
            self.arr[name] = self.arr[self.vec(('&', val[1]))]
            return
        if type(val) is tuple and val[0] == 'iter' and val[2] == 0:
            self.arr[name] = self.arr[self.vec(val[1])]
            return
        raise Stuck(val)

    def newlocals(self, st):
        for l, v in st.store.items():
            if l[0] == 'L' and type(v) is tuple and v[:1] == ('ctor',) and 'vector' in str(v[1]):
                o = 'L%s%s' % (l[1], l[2])
                if o not in self.arr:
                    self.setvec(o, v)

    def cells(self, st):
        """the fields the state knows about"""
        for l, v in st.store.items():
            ps = [(l[1], l[2], v)] if l[0] == 'F' and l[2] != BITS else [(('&', l), q, x) for q, x in v[2]] if l[0] == 'L' and type(v) is tuple and v[:1] == ('obj',) and len(v) == 3 and type(v[2]) is tuple else []
            for b, q, x in ps:
                try:
                    k = (self.obj(b), q)
                    if k not in self.cell or l[0] == 'F':
                        self.cell[k] = self.ev(x)
                except (Stuck, TypeError, ValueError, IndexError):
                    pass

    # -- transitions
    def play(self, events):
        for e in events:
            if e[0] == 'L':
                self.loop(e[1:])
            else:
                self.apply(e)

    def trial(self, st, events):
        """the environment after this path, or None if the path does not apply"""
        e = self.copy()
        for x in events:
            if x[0] == 'L':
                k = e.fn.own[tuple(x[1:])]
                for v in [v for v in e.lv if v[1] == k]:
                    del e.lv[v]
        if not e.maybe(st.facts):
            return None
        try:
            e.play(events)
        except Stuck:
            if not e.maybe(st.facts):
                return None
            raise
        except Other:
            return None
        if not e.fits(st.facts):
            return None
        e.newlocals(st)
        return e

    def loop(self, key):
        key = tuple(key)
        memo = self.fn.__dict__.setdefault('memo', {})
        k = (key, frozenset(self.lv.items()), frozenset(self.arr.items()), frozenset(self.cell.items()), frozenset((s, frozenset(a.items()), frozenset(c.items())) for s, (a, c) in self.snap.items()),
             frozenset(self.lib.items()), frozenset(self.args.items()))
        r = memo.get(k)
        if r is None:
            try:
                self.loop1(key)
                r = ('ok', self.copy())
            except (Stuck, Other) as e:
                r = ('exc', e)
            if len(memo) > 3000:
                memo.clear()
            memo[k] = r
        if r[0] == 'exc':
            raise r[1]
        c = r[1].copy()
        self.lv, self.arr, self.cell, self.snap, self.lib = c.lv, c.arr, c.cell, c.snap, c.lib

    def loop1(self, key):
        l, own = self.fn.loops[key], self.fn.own[key]
        es = [e for e in l.entries if self.maybe(e.facts)]
        vals = None
        for e in es:
            v = {}
            try:
                self.newlocals(e)
                self.cells(e)
            except Stuck:
                pass
            for lv in self.fn.lv[key]:
                t = l.at(e, lv[2])
                if t is not None:
                    try:
                        v[lv] = self.index(lv, t)
                    except Stuck:
                        pass
            if vals is None:
                vals = v
            elif vals != v:
                raise Stuck(('entry', key))
        if vals is None:
            raise Other()
        self.lv.update(vals)
        stamp = 'x' + own[1:]
        while True:
            self.mark(stamp)
            self.mark(own)
            self.fuel[0] -= 1
            if self.fuel[0] < 0:
                raise Stuck(('does not end', key))
            nxt = []
            for st, ev in l.iters:
                t = self.trial(st, ev)
                if t is not None:
                    nv = {}
                    for lv in self.fn.lv[key]:
                        x = l.next(st, lv)
                        if x is not None:
                            try:
                                nv[lv] = t.index(lv, x)
                            except Stuck:
                                pass
                    nxt.append((t, nv))
            if not nxt:
                return
            if len({(tuple(sorted(t.arr.items(), key=repr)), tuple(sorted(t.cell.items(), key=repr)), tuple(sorted(nv.items(), key=repr))) for t, nv in nxt}) > 1:
                raise Stuck(('two transitions apply', key))
            t, nv = nxt[0]
            self.arr, self.cell, self.snap, self.lib = t.arr, t.cell, t.snap, t.lib
            for v in [v for v in self.lv if v[1] == own]:
                del self.lv[v]
            self.lv.update(nv)

    def index(self, lv, t):
        """what the loop variable stands for: the index of an iterator, or the value"""
        x = self.ev(t)
        return x[1] if type(x) is tuple and lv in self.fn.asindex else x

    def run(self):
        """(environment, return term) of the only path that applies"""
        self.mark(0)
        got = []
        for st, ret in self.fn.outs:
            t = self.trial(st, st.cl[0])
            if t is not None:
                v = None
                if type(ret) is tuple and ret[:1] == ('obj',):
                    v = t.objval(ret)
                elif type(ret) is tuple and ret[0] == 'm' and ret[1][0] == 'L':
                    o = t.obj(('&', ret[1]))
                    v = {q: x for (w, q), x in t.cell.items() if w == o}
                elif ret == THIS or type(ret) is tuple and ret[0] in ('&', 'loc'):
                    v = 'this'
                elif type(ret) is tuple and ret[0] == 'm' and ret[1][0] == 'D' and ret[1][1] == THIS:
                    v = {q: x for (w, q), x in t.at(ret[2], 1).items() if w == 'this'}
                elif ret is not None:
                    v = t.ev(ret)
                got.append((t, v))
        if not got:
            raise Stuck('no path applies')
        t, v = got[0]
        if any(x.arr != t.arr or w != v for x, w in got[1:]):
            raise Stuck('two paths apply: %s / %s' % (v, [w for _, w in got[1:]]))
        return t, v

    def objval(self, o):
        r = {}
        for q, x in o[2]:
            if q.endswith('_b'):
                continue
            if q == BITS:
                self.setvec('ret', x)
                r[q] = self.arr['ret']
            else:
                r[q] = self.ev(x)
        return r


def s64(x):
    return x - (1 << 64) if type(x) is int and x >= 1 << 63 else x


def sh(f):
    return lambda a, b: f(a, b) if 0 <= b < 64 else None


OPS = {
    '+': lambda *a: sum(a), '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a // b, '%': lambda a, b: a % b,
    '&': lambda *a: __import__('functools').reduce(lambda x, y: x & y, a), '|': lambda *a: __import__('functools').reduce(lambda x, y: x | y, a),
    '^': lambda *a: __import__('functools').reduce(lambda x, y: x ^ y, a),
    '<<': sh(lambda a, b: a << b), '>>': sh(lambda a, b: a >> b), '<': lambda a, b: int(a < b), '!': lambda a: int(not a), 'not': lambda a: int(not a),
    'u~': lambda a: ~a, '~': lambda a: ~a, 'lomask': lambda n: (1 << n) - 1 if 0 <= n < 64 else None, 'min': min, 'max': max,
}


# ------------------------------------------------------------ the set the stored form stands for
def encode(s, L):
    md, data = [NEXT] * L, {}
    md[-1] = 0
    for x in s:
        md[x // 4032] |= 1 << (x // 64 % 63)
        data[x // 64] = data.get(x // 64, 0) | 1 << (x % 64)
    return tuple(md) + tuple(data[k] for k in sorted(data))



def show(s, L):
    return '{%s} (%d metadata word%s)' % (','.join(map(str, sorted(s))), L, '' if L == 1 else 's')


ITER = 'bitset::iterator'
RB = ITER + '::_b'


class Tab:
    """tabulates functions of the bit set and collects one verdict per rule"""

    def __init__(self, P, E, rep):
        self.P, self.E, self.rep, self.fns, self.js, self.n = P, E, rep, {}, {}, 0
        r = P.records.get('bitset')
        if r is None or not any(f['name'] == '_bits' for f in r['fields']):
            raise AnalysisError('anchor vanished: representation of the bit set')

    def fn(self, q, pred=None):
        k = (q, pred.__name__ if pred else '')
        if k not in self.fns:
            fs = [f for f in self.P.fn(q) if pred is None or pred(f)]
            if not fs:
                raise AnalysisError('anchor vanished: ' + q)
            self.fns[k] = None
            self.fns[k] = Fn(self.P, self.E, self.rep, fs[0])
        if self.fns[k] is None:
            raise AnalysisError('not analysed: ' + q)
        return self.fns[k]

    def call(self, q, A=None, B=None, args=(), cells=None, objs=None, pred=None):
        """(array of this afterwards, returned value)"""
        fn = self.fn(q, pred)
        o = {('this', BITS): 'A', ('p0', BITS): 'B', (('this', RB), BITS): 'A', (('p0', RB), BITS): 'A'}
        o.update(objs or {})
        e = Env(fn, o, dict(enumerate(args)))
        if A is not None:
            e.arr['A'] = A
        if B is not None:
            e.arr['B'] = B
        e.cell.update(cells or {})
        self.n += 1
        t, v = e.run()
        return t, v

    def rule(self, name, q, thunk, want, detail, pred=None):
        """one table row: thunk() must give want"""
        try:
            w = self.fn(q, pred).f.where()
        except AnalysisError as e:
            self.put(name, 'src/utils/bitset.cpp', UND, str(e))
            return None
        try:
            got = thunk()
        except Stuck as e:
            self.put(name, w, UND, '%s: not evaluable: %s' % (detail, str(e)[:600]))
            return None
        except AnalysisError as e:
            self.put(name, w, UND, str(e))
            return None
        self.put(name, w, OK if got == want else BAD, '%s gives %s, expected %s' % (detail, fmt(got), fmt(want)))
        return got

    def put(self, name, w, s, d):
        k = (name, w)
        rank = {OK: 0, UND: 1, BAD: 2}
        o = self.js.get(k)
        if o is None or rank[s] > rank[o[0]]:
            self.js[k] = (s, d)

    def flush(self):
        for (name, w), (s, d) in self.js.items():
            self.rep.add(name, w, s, '' if s == OK else d)


def fmt(x):
    if type(x) is tuple and x and all(type(y) is int for y in x):
        return '[' + ' '.join('%x' % y for y in x) + ']'
    return str(x)


def family(L, n):
    """sets over the word, metadata and capacity boundaries"""
    import random
    r = random.Random(L * 7 + 1)
    u = sorted({x for m in range(L) for x in (4032 * m, 4032 * m + 1, 4032 * m + 63, 4032 * m + 64, 4032 * m + 130, 4032 * m + 3967, 4032 * m + 3968, 4032 * m + 4031)})
    last = 4032 * (L - 1)
    fs = [set(), {0}, {last + 4031}, {62, 63, 64}, {0, 1, 63, 64, last, last + 4031}, {0, 1}, set(u), {last}]
    while len(fs) < n:
        fs.append(set(r.sample(u, r.randint(1, min(6, len(u))))))
    return u, fs[:n]


def single(P, E, rep):
    T = Tab(P, E, rep)
    deep = getattr(rep, 'tier', '') == 'thorough'
    for L in (1, 2, 3):
        u, fs = family(L, 24 if deep else 12)
        for s in fs:
            a = encode(s, L)
            for i in u:
                T.rule('reading a member', 'bitset::get', lambda: T.call('bitset::get', a, args=(i,))[1], int(i in s), 'get(%d) on %s' % (i, show(s, L)))
                for v in (1, 0):
                    T.rule('adding a member adds exactly it' if v else 'removing a member removes exactly it', 'bitset::set', lambda: T.call('bitset::set', a, args=(i, v))[0].arr['A'],
                           encode(s | {i} if v else s - {i}, L), 'set(%d, %d) on %s' % (i, v, show(s, L)))
            i = u[-1]
            T.rule('reading a member by index', 'bitset::operator[]', lambda: T.call('bitset::operator[]', a, args=(i,))[1], int(i in s), '[%d] on %s' % (i, show(s, L)))
            T.rule('clearing removes all members and keeps the capacity', 'bitset::clear', lambda: T.call('bitset::clear', a)[0].arr['A'], encode((), L), 'clear() on ' + show(s, L))
            T.rule('empty tells whether there is no member', 'bitset::empty', lambda: T.call('bitset::empty', a)[1], int(not s), 'empty() on ' + show(s, L))
            T.rule('capacity', 'bitset::capacity', lambda: T.call('bitset::capacity', a)[1], 4032 * L, 'capacity() of ' + show(s, L))
            T.rule('count is the number of members', 'bitset::count', lambda: T.call('bitset::count', a)[1], len(s), 'count() of ' + show(s, L))
            for n in (0, 1, 4032 * L - 1, 4032 * L, 4032 * L + 1, 4032 * (L + 1), 4032 * (L + 1) + 1, 4032 * (L + 3)):
                T.rule('growing keeps the members and never shrinks', 'bitset::resize', lambda: T.call('bitset::resize', a, args=(n,))[0].arr['A'], encode(s, max(L, -(-n // 4032))),
                       'resize(%d) on %s' % (n, show(s, L)))
            iteration(T, s, L, a)

    def sized(f):
        return len(f.params) == 1 and 'vector' not in f.params[0]['t'] and 'bitset' not in f.params[0]['t'] and 'bitstore' not in f.params[0]['t']

    def default(f):
        return not f.params
    for n in (0, 1, 64, 4031, 4032, 4033, 8064, 8065, 12097):
        T.rule('a new set is empty and has the requested capacity', 'bitset::bitset', lambda: T.call('bitset::bitset', args=(n,), pred=sized)[0].arr['A'], encode((), max(1, -(-n // 4032))), 'bitset(%d)' % n, pred=sized)
    T.rule('a default set is empty', 'bitset::bitset', lambda: T.call('bitset::bitset', pred=default)[0].arr['A'], encode((), 1), 'bitset()', pred=default)
    T.flush()
    rep.rows = getattr(rep, 'rows', 0) + T.n


def iteration(T, s, L, a):
    """begin, then next until the end: visits every member once, in increasing order"""
    it = {('p0', BITS): 'A'}
    name = 'iteration visits every member once, in order'

    def state(v):
        return {k: x for k, x in v.items() if x is not None}

    def walk_all():
        b = state(T.call(ITER + '::begin', a, objs=it)[1])
        e = state(T.call(ITER + '::end', a, objs=it)[1])
        seen, cur = [], b
        for _ in range(len(s) + 2):
            c = {('this', q): v for q, v in cur.items()}
            c2 = dict(c)
            c2.update({('p0', q): v for q, v in e.items()})
            eq = T.call(ITER + '::operator==', a, cells=c2)[1]
            ne = T.call(ITER + '::operator!=', a, cells=c2)[1]
            if bool(eq) == bool(ne):
                return ('== and != agree', eq, ne)
            if eq:
                return tuple(seen)
            seen.append(T.call(ITER + '::operator*', a, cells=c)[1])
            t, _ = T.call(ITER + '::operator++', a, cells=c, pred=prefix)
            cur = {q: v for (o, q), v in t.cell.items() if o == 'this'}
        return tuple(seen) + ('...',)

    def prefix(f):
        return not f.params
    prefix.__name__ = 'prefix'

    def postfix(f):
        return len(f.params) == 1
    postfix.__name__ = 'postfix'
    T.rule(name, ITER + '::begin', walk_all, tuple(sorted(s)), 'iterating over ' + show(s, L))
    if s:
        def post():
            b = state(T.call(ITER + '::begin', a, objs=it)[1])
            c = {('this', q): v for q, v in b.items()}
            t, v = T.call(ITER + '::operator++', a, cells=c, pred=postfix)
            p, _ = T.call(ITER + '::operator++', a, cells=c, pred=prefix)
            return (state(v) == b, {k: x for k, x in t.cell.items() if k[0] == 'this'} == {k: x for k, x in p.cell.items() if k[0] == 'this'})
        T.rule('post-increment returns the old position and advances', ITER + '::operator++', post, (True, True), 'it++ at the first member of ' + show(s, L), pred=postfix)


def sets(P, E, rep):
    T = Tab(P, E, rep)
    deep = getattr(rep, 'tier', '') == 'thorough'
    OPSET = {'&': lambda x, y: x & y, '|': lambda x, y: x | y, '^': lambda x, y: x ^ y, '-': lambda x, y: x - y}
    NAME = {'&': 'intersection', '|': 'union', '^': 'symmetric difference', '-': 'difference'}
    CMP = {'<=': lambda x, y: x <= y, '>=': lambda x, y: x >= y, '<': lambda x, y: x < y, '>': lambda x, y: x > y, '==': lambda x, y: x == y, '!=': lambda x, y: x != y}
    CN = {'<=': 'subset', '>=': 'superset', '<': 'proper subset', '>': 'proper superset', '==': 'equality', '!=': 'inequality'}
    for L, n in ((1, 6), (2, 7), (3, 4)):
        u, fs = family(L, n + (5 if deep else 0))
        fs = fs + [{x for x in fs[-1]} | {u[-2]}, {4032 * (L - 1) + 5, 7}, {4032 * (L - 1) + 5, 8}]
        for s in fs:
            for t in fs:
                a, b = encode(s, L), encode(t, L)
                w = '%%s on %s and %s' % (show(s, L), show(t, L))
                for o, f in OPSET.items():
                    T.rule(NAME[o], 'bitset::operator' + o, lambda: T.call('bitset::operator' + o, a, b)[1].get(BITS), encode(f(s, t), L), w % o)
                    T.rule(NAME[o] + ' in place', 'bitset::operator%s=' % o, lambda: T.call('bitset::operator%s=' % o, a, b)[0].arr['A'], encode(f(s, t), L), w % (o + '='))
                for o, f in CMP.items():
                    T.rule(CN[o], 'bitset::operator' + o, lambda: T.call('bitset::operator' + o, a, b)[1], int(f(s, t)), w % o)
                T.rule('having common members', 'bitset::has_intersection', lambda: T.call('bitset::has_intersection', a, b)[1], int(bool(s & t)), w % 'has_intersection')
                T.rule('having further members', 'bitset::has_difference', lambda: T.call('bitset::has_difference', a, b)[1], int(bool(s - t)), w % 'has_difference')
    T.flush()
    rep.rows = getattr(rep, 'rows', 0) + T.n
