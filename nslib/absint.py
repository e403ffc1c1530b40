"""Path-sensitive dataflow over clang's CFG with value-numbered expressions.

Abstract state: an environment of locals, a store (locations -> value numbers), a set of decided branch atoms and a
client automaton state.  Loops are cut at their heads: everything the loop may write is renamed to a head-local name,
so the fixpoint is reached after finitely many states.  Calls to functions of the repository are inlined when the client
asks for it (so an extracted helper is analysed like the code it came from); any other call havocs its transitive write
set.  Nothing is executed and no formula is given to a solver: branch feasibility uses constants, trichotomy of one
comparison, and atoms already decided on the path.
"""
import sys
from .ir import AnalysisError
sys.setrecursionlimit(20000)

WRAP = {'napsat::Tvar', 'napsat::Tlit', 'napsat::Tlevel', 'napsat::Tclause'}
WRAPVAL = {w + '::value' for w in WRAP}
GCONST = {'napsat::LIT_UNDEF': 0, 'napsat::LEVEL_ROOT': 0, 'napsat::LEVEL_UNDEF': 0xFFFFFFFF, 'napsat::LEVEL_ERROR': 0xFFFFFFFE,
          'napsat::CLAUSE_UNDEF': 0xFFFFFFFF, 'napsat::CLAUSE_LAZY': 0xFFFFFFFE, 'napsat::CLAUSE_ASSUMPTION': 0xFFFFFFFD, 'napsat::CLAUSE_ERROR': 0xFFFFFFFC}
MAXTERM = 160
DEAD = ('u', 'dead', 0)


SFX = ['']      # loop-phase suffix of the block being analysed: names of peeled iterations stay apart


NARROW = ('char', 'signed char', 'unsigned char', 'short', 'unsigned short')
WIDE = ('int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long')


def S(ctx, i):
    return ctx + ':' + str(i) + SFX[0]


class Blowup(Exception):
    pass


class Retry(Exception):
    """an induction hypothesis about a loop variable was refuted: start over without it"""


_size = {}


def tsize(t):
    if type(t) is not tuple:
        return 1
    s = _size.get(t)
    if s is None:
        s = 1 + sum(tsize(x) for x in t[1:])
        _size[t] = s
    return s


_mm = {}


def mentions(t):
    """frozenset of the generated names (sites) inside a term"""
    if type(t) is not tuple or not t:
        return frozenset()
    r = _mm.get(t)
    if r is None:
        s = set()
        h = t[0]
        if h == 'm':
            if t[2] != 0:
                s.add(t[2])
        elif h in ('r', 'lv', 'u', 'new'):
            s.add(t[1])
        elif h == 'v':
            s.update(x[1] for x in t[1:])
        for x in t:
            if type(x) is tuple:
                s |= mentions(x)
        r = frozenset(s)
        _mm[t] = r
    return r


def akey(loc):
    """alias class of a location"""
    k = loc[0]
    if k == 'F':
        return ('F', loc[2])
    if k == 'L':
        return loc
    if k == 'G':
        return loc
    if k == 'E':
        a = loc[1]
        if type(a) is tuple and a[0] == '&':
            return ('E',) + akey(a[1])
        if type(a) is tuple and a[0] == 'm':
            return ('E',) + akey(a[1])
        return ('D', loc[3] if len(loc) > 3 else '?')
    if k == 'D':
        v = loc[1]
        if type(v) is tuple and v[0] == 'iter':
            return akey(('E', v[1], v[2], loc[2]))
        return ('D', loc[2] if len(loc) > 2 else '?')
    return (k,)


_sub = {}


def subst(t, f):
    """rebuild t bottom-up through f (f maps a tuple to a replacement or None)"""
    if type(t) is not tuple or not t:
        return t
    ch = False
    if type(t[0]) is str:
        r = f(t)
        if r is not None:
            return r
        out, rest = [t[0]], t[1:]
    else:
        out, rest = [], t
    for x in rest:
        if type(x) is tuple:
            y = subst(x, f)
            ch = ch or (y is not x)
            out.append(y)
        else:
            out.append(x)
    return tuple(out) if ch else t


def occurs(t, x):
    if t == x:
        return True
    return type(t) is tuple and any(occurs(y, x) for y in t[1:])


_lin = {}


def lin(t):
    """linear form: (frozenset of (atom, coefficient), constant)"""
    if type(t) is int:
        return (frozenset(), t)
    r = _lin.get(t)
    if r is not None:
        return r
    d, c = {}, 0

    def add(t, k):
        nonlocal c
        if type(t) is int:
            c += k * t
        elif type(t) is tuple and t[0] in ('+', '-') and len(t) == 3:
            add(t[1], k)
            add(t[2], k if t[0] == '+' else -k)
        elif type(t) is tuple and t[0] == '*' and len(t) == 3 and type(t[2]) is int:
            add(t[1], k * t[2])
        else:
            d[t] = d.get(t, 0) + k
    add(t, 1)
    r = (frozenset((a, k) for a, k in d.items() if k), c)
    _lin[t] = r
    return r


def unlin(atoms, c):
    t = 0
    for a, k in sorted(atoms, key=repr):
        t = mk('+', t, mk('*', a, k))
    return mk('+', t, c)


def lindiff(a, b):
    """constant a - b, or None"""
    la, lb = lin(a), lin(b)
    return la[1] - lb[1] if la[0] == lb[0] else None


NEG = {'!=': '==', '>=': '<', '<=': '>'}


EXACT = False           # products may wrap: a quotient of one is left as it is


def mk(op, *a):
    """canonical value term"""
    if op in ('==', '!=', '<', '>', '<=', '>='):
        x, y = a
        if op == '!=':
            return mk('!', mk('==', x, y))
        if op == '>':
            return mk('<', y, x)
        if op == '>=':
            return mk('!', mk('<', x, y))
        if op == '<=':
            return mk('!', mk('<', y, x))
        if type(x) is int and type(y) is int:
            return int(x == y) if op == '==' else int(x < y)
        if x == y:
            return 1 if op == '==' else 0
        if op == '==':
            if type(x) is int or (type(y) is not int and repr(x) > repr(y)):
                x, y = y, x
            if y in (0, 1) and type(x) is tuple and x[0] in ('==', '<', '!', 'b'):
                return x if y == 1 else mk('!', x)
            if type(x) is tuple and x[0] == 'new' and y == 0:
                return 0
            if type(x) is tuple and type(y) is tuple and (x[0] in ('+', '-') or y[0] in ('+', '-')):
                d = lindiff(x, y)
                if d is not None:
                    return int(d == 0)
            if type(x) is tuple and type(y) is tuple and x[0] == 'g' and y[0] == 'g':
                return int(x == y)
            if type(x) is tuple and x[0] == '&' and len(x) == 2 and y == 0:
                return 0
        return (op, x, y)
    if op == '!':
        x = a[0]
        if type(x) is int:
            return int(not x)
        if type(x) is tuple and x[0] == '!':
            return x[1]
        return ('!', x)
    if op in ('+', '-', '*', '&', '|', '^', '<<', '>>', '/', '%') and len(a) == 2 and type(a[0]) is int and type(a[1]) is int:
        x, y = a
        try:
            return {'+': x + y, '-': x - y, '*': x * y, '&': x & y, '|': x | y, '^': x ^ y, '<<': x << y if 0 <= y < 128 else 0,
                    '>>': x >> y if y >= 0 else 0, '/': x // y if y else 0, '%': x % y if y else 0}[op]
        except Exception:
            pass
    if op in ('+', '*', '&', '|', '^') and len(a) == 2:
        x, y = a
        if type(x) is tuple and x[0] == 'iter' and op == '+':
            return ('iter', x[1], mk('+', x[2], y))
        if op == '*':
            if type(x) is int: x, y = y, x
            if y == 0: return 0
            if y == 1: return x
            if type(y) is int and type(x) is tuple and x[0] == '*' and type(x[2]) is int:
                return mk('*', x[1], x[2] * y)
            if type(y) is int and type(x) is tuple and x[0] in ('+', '-') and len(x) == 3 and type(x[2]) is int:
                return mk('+', mk('*', x[1], y), (x[2] if x[0] == '+' else -x[2]) * y)
        if op == '+':
            if x == y: return mk('*', x, 2)
            if x == 0: return y
            if y == 0: return x
            if type(y) is int and type(x) is tuple and x[0] == '+' and type(x[2]) is int:
                return mk('+', x[1], x[2] + y)
            if type(y) is int and type(x) is tuple and x[0] == '-' and type(x[2]) is int:
                return mk('+', x[1], y - x[2])
            if type(y) is int and y < 0:
                return ('-', x, -y)
        if op == '^':
            fl, work = [], [x, y]
            while work:
                t = work.pop()
                if type(t) is tuple and t[0] == '^' and len(t) == 3:
                    work += t[1:]
                elif t in fl:
                    fl.remove(t)
                else:
                    fl.append(t)
            k = 0
            for t in fl:
                if type(t) is int:
                    k ^= t
            fl = sorted((t for t in fl if type(t) is not int), key=repr)
            r = k if not fl else fl[0]
            for t in fl[1:]:
                r = ('^', r, t)
            return ('^', r, k) if fl and k else r
        if type(x) is int or (type(y) is not int and repr(x) > repr(y)):
            x, y = y, x
        if op == '&' and type(y) is int:
            if y == 0: return 0
            if y == 0xFFFFFFFFFFFFFFFF: return x
            if x[0] == '&' and len(x) == 3 and type(x[2]) is int:
                return mk('&', x[1], x[2] & y)
            if 3 <= y <= 0xFFFF and (y & (y + 1)) == 0:
                return mk('%', x, y + 1)
        if op in '|^' and y == 0:
            return x
        return (op, x, y)
    if op in ('<<', '>>') and len(a) == 2 and type(a[1]) is int and 0 <= a[1] < 64:
        return mk('*' if op == '<<' else '/', a[0], 1 << a[1])
    if op == '/' and a[1] == 1:
        return a[0]
    if op in ('/', '%') and type(a[1]) is int and a[1] > 1 and type(a[0]) is tuple and a[0][0] in ('+', '-', '*') and not EXACT:
        at, c = lin(a[0])
        dv = [(t, k) for t, k in at if k % a[1] == 0]
        if dv or (c % a[1] == 0 and c):
            rest = unlin([(t, k) for t, k in at if k % a[1]], c % a[1])
            if op == '%':
                return mk('%', rest, a[1])
            return mk('+', mk('/', rest, a[1]) if rest != 0 else 0, unlin([(t, k // a[1]) for t, k in dv], c // a[1])) if type(rest) is not int else unlin([(t, k // a[1]) for t, k in dv], c // a[1])
    if op == '/' and type(a[1]) is int and type(a[0]) is tuple:
        x, y = a
        if x[0] == '%' and type(x[2]) is int and x[2] <= y:
            return 0
        if x[0] == '/' and type(x[2]) is int and x[2] > 0 and y > 0:
            return ('/', x[1], x[2] * y)
    if op == '%' and type(a[1]) is int and type(a[0]) is tuple and a[0][0] == '%' and type(a[0][2]) is int and a[0][2] <= a[1]:
        return a[0]
    if op == 'u~' and type(a[0]) is tuple and a[0][0] == '<<' and a[0][1] in (-1, 0xFFFFFFFFFFFFFFFF):
        return ('lomask', a[0][2])
    if op == '-' and a[1] == 1 and type(a[0]) is tuple and a[0][0] == '<<' and a[0][1] == 1:
        return ('lomask', a[0][2])
    if op == '-' and a[1] == 0:
        return a[0]
    if op == '-' and len(a) == 2:
        x, y = a
        if y == 0: return x
        if x == y: return 0
        if type(y) is int:
            return mk('+', x, -y)
        if type(x) is tuple and x[0] == 'iter':
            if type(y) is tuple and y[0] == 'iter' and y[1] == x[1]:
                return mk('-', x[2], y[2])
            if y == x[1]:
                return x[2]
        if type(x) is tuple and x[0] == '+' and x[1] == y:
            return x[2]
    return (op,) + a


def truth(v):
    """boolean atom of a value used as a condition"""
    if type(v) is int:
        return int(v != 0)
    if type(v) is tuple and v[0] in ('==', '<', '!'):
        return v
    return mk('!', mk('==', v, 0))


def has_only(w, name):
    return w == name or type(w) is tuple and len(w) == 3 and w[0] == '+' and w[1] == name and type(w[2]) is int and w[2] >= 0


class State:
    __slots__ = ('env', 'store', 'facts', 'cl', 'tmp', 'ep', 'ver', 'ph', 'li')

    def __init__(self):
        self.env, self.store, self.facts, self.cl, self.tmp, self.ep, self.ver = {}, {}, {}, None, {}, {}, {}
        self.li = ()        # values of the loop variables at the entry of the loops in ph
        self.ph = ()        # peeled loops on this path: ((ctx, head), phase) from outermost to innermost

    def copy(self):
        s = State.__new__(State)
        s.env, s.store, s.facts, s.cl, s.tmp, s.ep, s.ver = dict(self.env), dict(self.store), dict(self.facts), self.cl, dict(self.tmp), dict(self.ep), dict(self.ver)
        s.ph = self.ph
        s.li = self.li
        return s

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.store.items()), frozenset(self.facts.items()), self.cl,
                frozenset(self.tmp.items()), frozenset(self.ep.items()), frozenset(self.ver.items()), self.ph, self.li)

    # ---- decision of atoms ----
    def decide(self, a):
        if type(a) is int:
            return bool(a)
        if a[0] == '!':
            d = self.decide(a[1])
            return None if d is None else not d
        F = self.facts
        d = F.get(a)
        if d is not None:
            return d
        if a[0] == '==':
            x, y = a[1], a[2]
            lt, gt = F.get(('<', x, y)), F.get(('<', y, x))
            if lt or gt:
                return False
            if lt is False and gt is False:
                return True
            if type(y) is int or (type(y) is tuple and y[0] == 'g'):
                for (k, v) in F.items():
                    if v and k[0] == '==' and ((k[1] == x and k[2] != y and _const(k[2])) or (k[2] == x and _const(k[1]) and k[1] != y)):
                        return False
                    if k[0] == '<' and type(y) is int:
                        if k[1] == x and type(k[2]) is int:
                            if v and y >= k[2]: return False
                            if not v and y < k[2]: return False
                        if k[2] == x and type(k[1]) is int:
                            if v and y <= k[1]: return False
                            if not v and y > k[1]: return False
            # disequality through a shared constant
            ex = [k[2] if k[1] == x else k[1] for k, v in F.items() if v and k[0] == '==' and (k[1] == x or k[2] == x)]
            ey = [k[2] if k[1] == y else k[1] for k, v in F.items() if v and k[0] == '==' and (k[1] == y or k[2] == y)]
            for p in ex:
                for q in ey:
                    if p == q:
                        return True
                    if _const(p) and _const(q):
                        return False
                if _const(p) and not _const(y):
                    e2 = mk('==', y, p)
                    if F.get(e2) is False:
                        return False
            for q in ey:
                if _const(q) and not _const(x) and F.get(mk('==', x, q)) is False:
                    return False
        if a[0] == '<':
            x, y = a[1], a[2]
            if F.get(('<', y, x)):
                return False
            e = F.get(mk('==', x, y)) if type(mk('==', x, y)) is tuple else None
            if e:
                return False
            if e is False and F.get(('<', y, x)) is False:
                return True
            if type(x) is int or type(y) is int:
                v0 = y if type(x) is int else x
                for (k, v) in F.items():
                    if k[0] == '==' and v and k[1] == v0 and type(k[2]) is int:
                        return (x < k[2]) if type(x) is int else (k[2] < y)
                    if k[0] == '<':
                        if type(x) is int:      # x < v0 ?
                            if k[2] == v0 and type(k[1]) is int and v and k[1] >= x: return True
                            if k[1] == v0 and type(k[2]) is int and v and k[2] <= x + 1: return False
                            if k[1] == v0 and type(k[2]) is int and not v and k[2] > x: return True
                            if k[2] == v0 and type(k[1]) is int and not v and k[1] <= x: return False
                        else:                   # v0 < y ?
                            if k[1] == v0 and type(k[2]) is int and v and k[2] <= y: return True
                            if k[1] == v0 and type(k[2]) is int and not v and k[2] >= y: return False
                            if k[2] == v0 and type(k[1]) is int and v and k[1] >= y - 1: return False
                            if k[2] == v0 and type(k[1]) is int and not v and k[1] < y: return True
            if type(x) is tuple and x[0] == '#u' and y == 0:
                return False
        return None

    def assume(self, a, val):
        """False if contradictory"""
        while type(a) is tuple and a[0] == '!':
            a, val = a[1], not val
        if type(a) is int:
            return bool(a) == val
        d = self.decide(a)
        if d is not None:
            if d != val:
                return False
            return True
        self.facts[a] = val
        return True


def _const(x):
    return type(x) is int or (type(x) is tuple and x[0] in ('g', 'str'))


NONMUT = {'begin', 'end', 'size', 'empty', 'c_str', 'find', 'good', 'rdbuf', 'eof', 'fail', 'data', 'back', 'front', 'at', 'operator[]', 'get', 'operator->', 'operator*', 'is_open'}


class Client:
    """override what the rule needs"""
    peel = False           # loops: first iteration, an arbitrary one, and the one after it are told apart (see Engine.enter)
    forget = False         # loops: decisions of the first iteration are not remembered in the later ones
    stable = ()            # locations calls left opaque and loops are taken not to change
    merge = False          # ESP-style merging on (client state, key facts)
    max_states = 4000
    max_depth = 12
    locals_private = True
    lazy_distinct = False  # writes never alias cells that were not read before (tree-shaped memory)

    def init(self, eng): pass
    def inline(self, eng, fid, qn, depth): return True
    def call(self, eng, st, c): return None        # -> list of (state, value) or None for the default
    def write(self, eng, st, loc, val, site): pass
    def new(self, eng, st, term, node, args): pass
    def delete(self, eng, st, val, node): pass
    def ret(self, eng, st, val, fn, depth): pass
    def branch(self, eng, st, atom, val, fn, blk): return True
    def block(self, eng, st, fn, blk, depth): pass
    def loophead(self, eng, st, fn, blk, ctx): pass
    def preloop(self, eng, st, fn, blk, ctx): pass
    def backedge(self, eng, st, fn, blk, ctx, phase): pass
    def keyfact(self, atom): return False
    def distinct(self, a, b): return False
    def throw(self, eng, st, fn): pass


class CallInfo:
    __slots__ = ('qn', 'fid', 'args', 'argnodes', 'node', 'fn', 'ctx', 'method', 'this', 'op', 'depth', 'name', 'pt')


class Engine:
    def __init__(self, P, E, client):
        self.P, self.E, self.C = P, E, client
        client.init(self)
        self.steps = 0
        self.visited_funcs = set()
        self.paths = 0
        self.inlined_sites = 0
        self.black = {}     # (ctx, head, lid) -> None (arbitrary) or ('acc', d): not a constant step
        self.dead = set()
        self.upd = {}       # updates seen for the variables in black
        self.max_steps = getattr(client, 'max_steps', 400000)
        self.stack = []

    # ------------------------------------------------------------------ memory
    def read(self, st, loc):
        loc = self.norm(st, loc)
        v = st.store.get(loc)
        if v is not None:
            return v
        if loc[0] == 'V':
            return loc[1]
        if loc[0] in ('F', 'E') and type(loc[1]) is tuple and loc[1][0] == '&':
            w = st.store.get(loc[1][1])
            if w is not None and loc[1][1][0] in ('L', 'E', 'D', 'F') and self.whole(w):
                if type(w) is tuple and w[0] == 'm':
                    l2 = (loc[0], ('&', w[1])) + loc[2:]
                    return ('m', l2, w[2])
                if type(w) is tuple and w[0] == 'obj' and loc[0] == 'F':
                    for q, x in w[2]:
                        if q == loc[2]:
                            return x
                return ('fv', w, loc[2])
        e = st.ep.get(akey(loc), 0)
        if loc[0] == 'D' and loc[2] in self.P.records:
            # a whole object some fields of which were written on their own
            fs = [(loc[2] + '::' + f['name'], self.read(st, ('F', loc[1], loc[2] + '::' + f['name']))) for f in self.P.records[loc[2]]['fields']]
            if any(x != ('m', ('F', loc[1], q), e) for q, x in fs):
                return ('obj', loc[2], tuple(fs))
        return ('m', loc, e)

    def whole(self, w):
        return type(w) is tuple and w[0] in ('m', 'obj', 'fv', 'ctor', 'r', 'call', 'list', 'lv', 'u')

    def norm(self, st, loc):
        if loc[0] == 'D' and type(loc[1]) is tuple:
            if loc[1][0] == '&':
                return loc[1][1]
            if loc[1][0] == 'iter':
                return ('E', loc[1][1], loc[1][2], loc[2])
        return loc

    def may_alias(self, st, a, b):
        if a == b:
            return True
        ka, kb = akey(a), akey(b)
        if ka != kb:
            if ka[0] == 'D' and kb[0] == 'D' and ('?' in (ka[1], kb[1])):
                return True
            # an element of / field inside a container that is overwritten
            return False
        if a[0] == 'F' and b[0] == 'F':
            return not self.differ(st, a[1], b[1])
        if a[0] == 'E' and b[0] == 'E':
            if self.differ(st, a[2], b[2]) and not self.differ(st, a[1], b[1]) and a[1] == b[1]:
                return False
            return not self.differ(st, a[1], b[1])
        if a[0] == 'L':
            return False
        if a[0] == 'D' and b[0] == 'D':
            return not self.differ(st, a[1], b[1])
        return True

    def differ(self, st, x, y):
        if x == y:
            return False
        if type(x) is int and type(y) is int:
            return True
        tx, ty = (x[0] if type(x) is tuple else 'int'), (y[0] if type(y) is tuple else 'int')
        if 'new' in (tx, ty):
            if tx == ty:
                return True
            o = ty if tx == 'new' else tx
            if o in ('m', 'p', 'this', '&', 'int', 'lv') and o != 'lv':
                return True
        if tx == 'sym' and ty == 'sym':
            return True
        if tx == '&' and ty == '&':
            lx, ly = x[1], y[1]
            if lx[0] != ly[0]:
                return True
            if lx[0] == 'L':
                return True
            if lx[0] == 'F' and lx[2] != ly[2]:
                return True
            if lx[0] == 'F':
                return self.differ(st, lx[1], ly[1])
            if lx[0] == 'E':
                return (lx[1] == ly[1] and self.differ(st, lx[2], ly[2])) or akey(lx) != akey(ly)
            return False
        if tx == 'this' and ty == '&' or tx == '&' and ty == 'this':
            o = y if tx == 'this' else x
            return o[1][0] == 'L'
        if st.decide(mk('==', x, y)) is False:
            return True
        for a, b, t in ((x, y, ty), (y, x, tx)):
            if type(a) is int and t == 'lv' and any(k[0] == 'lb' and k[1] == b and a < k[2] for k in st.facts):
                return True
        # x+c vs x
        if tx == '+' and x[1] == y and type(x[2]) is int and x[2] != 0:
            return True
        if ty == '+' and y[1] == x and type(y[2]) is int and y[2] != 0:
            return True
        return bool(self.C.distinct(x, y))

    def write(self, st, loc, val, site, notify=True, node=None):
        loc = self.norm(st, loc)
        if loc[0] == 'V':
            return
        if notify:
            self.C.write(self, st, loc, val, site)
        key = akey(loc)
        if tsize(val) > MAXTERM:
            self.kill(st, site)
            val = ('u', site, 'big')
        if loc[0] == 'L':
            for l in list(st.store):
                if l != loc and self.inside(l, loc):
                    del st.store[l]
            st.store[loc] = val
            self.touch(st, key, site)
            return
        self.touch(st, key, site)
        alias = [l for l in st.store if l != loc and akey(l) == key and self.may_alias(st, l, loc)]
        for l in alias:
            del st.store[l]
        for l in list(st.store):
            if l != loc and self.inside(l, loc):
                del st.store[l]
        # other cells of the class that are not in the store may have changed too
        if self.others(st, loc, key):
            self.kill(st, site)
            st.ep[key] = site
        st.store[loc] = val
        if loc[0] == 'F' and type(loc[1]) is tuple and loc[1][0] == '&' and loc[1][1][0] == 'L':
            w = st.store.get(loc[1][1])
            if type(w) is tuple and w[:1] == ('obj',) and len(w) == 3 and type(w[2]) is tuple:
                st.store[loc[1][1]] = ('obj', w[1], tuple((q, val if q == loc[2] else x) for q, x in w[2]))

    def others(self, st, loc, key):
        """may a cell of this class that is not in the store have been changed by a write to loc?"""
        if loc[0] == 'F' and loc[1] == ('this',) or loc[0] == 'G':
            return False
        if loc[0] == 'F' and type(loc[1]) is tuple and loc[1][0] == '&' and loc[1][1][0] == 'L':
            return False
        return not self.C.lazy_distinct

    def touch(self, st, key, site):
        """version stamps of pure calls over this class change"""
        k = key
        while k and k[0] == 'E':
            k = k[1:]
        self.kill(st, site + '!')
        st.ver[k] = site + '!'

    def stamp(self, st, keys):
        """version part of a pure-call term"""
        v = tuple(sorted(((k, st.ver[k]) for k in keys if k in st.ver), key=repr))
        return (('v',) + v,) if v else ()

    def callterm(self, st, qn, this, vals, fid=None):
        res = ('call', qn) + ((this,) if this is not None else ()) + vals
        keys = set()
        f = self.P.funcs.get(fid) if fid else None
        if f is not None:
            keys |= {k for k in self.E.ref[fid]}
        for a in ((this,) if this is not None else ()) + vals:
            if type(a) is tuple and a[0] == '&':
                k = akey(a[1])
                while k and k[0] == 'E':
                    k = k[1:]
                keys.add(k)
        return res + self.stamp(st, keys)

    def inside(self, l, loc):
        """l is a sub-location (field / element) of loc"""
        while l[0] in ('F', 'E'):
            b = l[1]
            if type(b) is tuple and b[0] == '&':
                l = b[1]
                if l == loc:
                    return True
            else:
                return False
        return False

    def kill(self, st, name):
        """forget everything that mentions a generated name which is about to be reused"""
        for d in (st.env, st.store, st.tmp):
            for k, v in list(d.items()):
                if type(v) is tuple and name in mentions(v):
                    d[k] = ('ref', ('V', DEAD)) if v[0] == 'ref' else DEAD
        for k in list(st.store):
            if name in mentions(k):
                del st.store[k]
        for k in list(st.facts):
            if name in mentions(k):
                del st.facts[k]
        if type(st.cl) is tuple and name in mentions(st.cl):
            st.cl = subst(st.cl, lambda t: DEAD if (t[0] in ('m', 'r', 'lv', 'u', 'new', 'call', 'loc', 'F', 'E', 'D') and name in mentions(t) and not any(
                type(x) is tuple and x[0] in ('m', 'r', 'lv', 'u', 'new', 'call') and name in mentions(x) for x in t[1:])) else None)

    def havoc(self, st, mods, site, notify=True):
        """mods: set of ('F',qn) / ('D',type) / ('G',qn)"""
        if self.C.stable:
            mods = {m for m in mods if m not in self.C.stable}
        if not mods:
            return
        self.kill(st, site)
        self.kill(st, site + '!')

        def base(k):
            while k and k[0] == 'E':
                k = k[1:]
            return k

        def kin(k):
            k = base(k)
            return k in mods or (k[0] == 'D' and any(x[0] == 'D' and (x[1] == k[1] or k[1] == '?') for x in mods))
        for l in list(st.store):
            if l[0] != 'L' and kin(akey(l)) and not self.private(st, l):
                del st.store[l]
        for m in mods:
            st.ep[m] = site
            st.ver[m] = site + '!'
            if m[0] in ('F', 'G'):
                st.ep[('E',) + m] = site

    def private(self, st, l):
        """sub-location of a local whose address did not escape"""
        while l[0] in ('F', 'E'):
            b = l[1]
            if type(b) is tuple and b[0] == '&':
                l = b[1]
            else:
                return False
        return l[0] == 'L' and self.C.locals_private

    # ------------------------------------------------------------------ expressions
    def val(self, st, fn, ctx, i):
        """rvalue of node i"""
        v = self.get(st, fn, ctx, i)
        if type(v) is tuple and v[0] == 'loc':
            return self.read(st, v[1])
        return v

    def addr(self, st, fn, ctx, i):
        """address term of the object designated by node i (lvalue) or a value naming a prvalue object"""
        v = self.get(st, fn, ctx, i)
        if type(v) is tuple and v[0] == 'loc':
            l = self.norm(st, v[1])
            if l[0] == 'D':
                return l[1]
            if l[0] == 'V':
                return l[1]
            return ('&', l)
        return v

    def get(self, st, fn, ctx, i):
        if i in st.tmp:
            return st.tmp[i]
        r = self.eval(st, fn, ctx, i)
        if type(r) is list:
            # nested multi-state call evaluated on demand: keep the first (only happens for non-element nodes)
            s2, v = r[0]
            st.env, st.store, st.facts, st.cl, st.tmp = s2.env, s2.store, s2.facts, s2.cl, s2.tmp
            r = v
        return r

    def local(self, st, fn, ctx, n):
        lid = n['lid']
        b = st.env.get((ctx, lid))
        if b is not None and type(b) is tuple and b[0] == 'ref':
            return b[1]
        if b is not None and type(b) is tuple and b[0] == 'cap':
            return b[1]
        loc = ('L', lid, ctx)
        return loc

    def eval(self, st, fn, ctx, i):
        """-> value, ('loc', l), or list of (state, value)"""
        n = fn.nodes.get(i)
        if n is None:
            return ('u', S(ctx, i), 'x')
        k = n['k']
        c = n.get('c', [])
        if k == 'DeclRefExpr':
            dk = n.get('dk')
            if dk in ('param', 'local', 'slocal', 'binding'):
                if dk == 'slocal':
                    return ('loc', ('G', fn.qn + '::' + n['name']))
                cap = st.env.get((ctx, 'cap', n['name']))
                if cap is not None and (ctx, n['lid']) not in st.env and ('L', n['lid'], ctx) not in st.store:
                    return cap
                return ('loc', self.local(st, fn, ctx, n))
            if dk == 'func':
                return ('func', n['fid'], n['qn'])
            if dk == 'enum':
                return int(n['cv'])
            if dk == 'global':
                if 'cv' in n:
                    return int(n['cv'])
                if n['qn'] in GCONST:
                    return GCONST[n['qn']]
                g = self.P.globals.get(n['qn'])
                if g and g['const']:
                    return ('g', n['qn'])
                return ('loc', ('G', n['qn']))
            if 'cv' in n:
                return int(n['cv'])
            return ('g', n.get('qn', n.get('name')))
        if 'cv' in n and k not in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            v = int(n['cv'])
            t = n.get('t', '')
            if t == 'bool':
                return v
            return v
        if k == 'MemberExpr':
            if n.get('dk') == 'func':
                return ('func', n['fid'], n['qn'])
            if n['qn'] in WRAPVAL:
                return self.get(st, fn, ctx, c[0])
            if n.get('arrow'):
                return ('loc', ('F', self.val(st, fn, ctx, c[0]), n['qn']))
            b = self.get(st, fn, ctx, c[0])
            if type(b) is tuple and b[0] == 'loc':
                return ('loc', ('F', self.addrof(st, b[1]), n['qn']))
            if type(b) is tuple and b[0] == 'obj':
                return b[2].get(n['qn'], ('fv', b, n['qn'])) if False else ('fv', b, n['qn'])
            return ('fv', b, n['qn'])
        if k == 'CXXThisExpr':
            return st.env.get((ctx, 'this'), ('this',))
        if k in ('IntegerLiteral', 'CharacterLiteral'):
            return int(n['cv']) if 'cv' in n else ('u', S(ctx, i), 'lit')
        if k == 'CXXBoolLiteralExpr':
            return int(n['b'])
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            return 0
        if k == 'StringLiteral':
            return ('str', n.get('s', ''))
        if k == 'FloatingLiteral':
            return ('str', n['s'])
        if k in ('UnaryExprOrTypeTraitExpr',):
            return int(n['cv']) if 'cv' in n else ('u', S(ctx, i), 'sz')
        if 'ck' in n:
            ck = n['ck']
            if ck == 'LValueToRValue':
                return self.val(st, fn, ctx, c[0])
            if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
                return truth(self.val(st, fn, ctx, c[0]))
            if ck == 'NullToPointer':
                return 0
            if ck == 'ToVoid':
                self.get(st, fn, ctx, c[0])
                return 0
            if ck == 'ArrayToPointerDecay':
                v = self.get(st, fn, ctx, c[0])
                if type(v) is tuple and v[0] == 'loc':
                    return ('&', v[1])
                return v
            if ck == 'IntegralCast':
                v = self.val(st, fn, ctx, c[0])
                if type(v) is int and 't' in n:
                    t = n['t']
                    if v < 0 and t.startswith('unsigned'):
                        v += 1 << (64 if 'long' in t else 8 if 'char' in t else 16 if 'short' in t else 32)
                    elif t == 'unsigned int':
                        v &= 0xffffffff
                    elif t == 'unsigned char':
                        v &= 0xff
                if type(v) is tuple and n.get('t') in NARROW and v[0] != 'loc' and self.wide(fn, c[0]):
                    return ('cast', n['t'], v)
                return v
            return self.get(st, fn, ctx, c[0])
        if k == 'UnaryOperator':
            op = n['op']
            if op == '!':
                return mk('!', truth(self.val(st, fn, ctx, c[0])))
            if op == '*':
                v = self.val(st, fn, ctx, c[0])
                if type(v) is tuple and v[0] == 'func':
                    return v
                return ('loc', self.norm(st, ('D', v, n['t'])))
            if op == '&':
                v = self.get(st, fn, ctx, c[0])
                if type(v) is tuple and v[0] == 'loc':
                    return self.addrof(st, v[1])
                return v
            if op in ('++', '--'):
                l = self.get(st, fn, ctx, c[0])
                if not (type(l) is tuple and l[0] == 'loc'):
                    return ('u', S(ctx, i), 'inc')
                old = self.read(st, l[1])
                nv = self.incr(old, 1 if op == '++' else -1, n.get('t', ''))
                self.write(st, l[1], nv, S(ctx, i))
                if n.get('post'):
                    return old
                return l
            v = self.val(st, fn, ctx, c[0])
            if type(v) is int:
                if op == '-': return -v
                if op == '+': return v
                if op == '~':
                    t = n.get('t', '')
                    w = 64 if 'long' in t else 32
                    return (~v) & ((1 << w) - 1) if 'unsigned' in t else ~v
            return mk('u' + op, v)
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            op = n['op']
            if op == ',':
                self.get(st, fn, ctx, c[0])
                return self.get(st, fn, ctx, c[1])
            if op in ('&&', '||'):
                br = st.tmp.get(('br', i))
                if br is None:
                    # not split by the CFG: plain boolean term
                    a, b = truth(self.val(st, fn, ctx, c[0])), truth(self.val(st, fn, ctx, c[1]))
                    return self.conj(op, a, b)
                if op == '&&' and br is False:
                    return 0
                if op == '||' and br is True:
                    return 1
                return truth(self.val(st, fn, ctx, c[1]))
            if op == '=':
                v = self.val(st, fn, ctx, c[1])
                l = self.get(st, fn, ctx, c[0])
                if type(l) is tuple and l[0] == 'loc':
                    self.write(st, l[1], v, S(ctx, i))
                return l
            if k == 'CompoundAssignOperator':
                l = self.get(st, fn, ctx, c[0])
                v = self.val(st, fn, ctx, c[1])
                if type(l) is tuple and l[0] == 'loc':
                    old = self.read(st, l[1])
                    self.write(st, l[1], self.arith(op[:-1], old, v, n), S(ctx, i))
                return l
            a, b = self.val(st, fn, ctx, c[0]), self.val(st, fn, ctx, c[1])
            if op in ('.*', '->*'):
                return ('u', S(ctx, i), 'pm')
            return self.arith(op, a, b, n)
        if k == 'ConditionalOperator':
            br = st.tmp.get(('br', i))
            if br is True:
                return self.get(st, fn, ctx, c[1])
            if br is False:
                return self.get(st, fn, ctx, c[2])
            cond = truth(self.val(st, fn, ctx, c[0]))
            d = st.decide(cond)
            if d is not None:
                return self.get(st, fn, ctx, c[1 if d else 2])
            return ('?:', cond, self.val(st, fn, ctx, c[1]), self.val(st, fn, ctx, c[2]))
        if k == 'ArraySubscriptExpr':
            b, x = self.val(st, fn, ctx, c[0]), self.val(st, fn, ctx, c[1])
            if type(b) is tuple and b[0] == 'iter':
                return ('loc', ('E', b[1], mk('+', b[2], x), n['t']))
            return ('loc', ('E', b, x, n['t']))
        if k == 'DeclStmt':
            for v in n.get('vars', []):
                self.declare(st, fn, ctx, v, i)
            return 0
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            return self.construct(st, fn, ctx, i, n)
        if k in ('CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CallExpr'):
            return self.call(st, fn, ctx, i, n)
        if k == 'CXXNewExpr':
            args = []
            for x in c:
                args.append(self.val(st, fn, ctx, x))
            t = ('new', S(ctx, i), n['nt'])
            self.kill_new(st, t)
            self.C.new(self, st, t, (fn, i, n), args)
            if n.get('init', -1) >= 0:
                ini = fn.nodes[n['init']]
                if ini['k'] in ('CXXConstructExpr',) and not n.get('arr'):
                    r = self.construct_at(st, fn, ctx, n['init'], ini, t)
                    if r is not None:
                        return [(s, t) for s in r]
            return t
        if k == 'CXXDeleteExpr':
            self.C.delete(self, st, self.val(st, fn, ctx, c[0]), (fn, i, n))
            return 0
        if k == 'LambdaExpr':
            caps = []
            for cp in n.get('caps', []):
                if cp.get('this'):
                    caps.append(('this', st.env.get((ctx, 'this'), ('this',))))
                elif 'name' in cp:
                    b = st.env.get((ctx, cp['lid']))
                    loc = b[1] if type(b) is tuple and b[0] == 'ref' else ('L', cp['lid'], ctx)
                    oc = st.env.get((ctx, 'cap', cp['name']))
                    if oc is not None and loc not in st.store and b is None:
                        caps.append((cp['name'], oc))
                    elif cp.get('byref'):
                        caps.append((cp['name'], ('loc', loc)))
                    else:
                        caps.append((cp['name'], ('loc', ('V', self.read(st, loc)))))
            return ('lambda', n['fid'], tuple(caps))
        if k == 'CXXRewrittenBinaryOperator':
            return self.get(st, fn, ctx, c[0]) if len(c) == 1 else mk('!=', self.val(st, fn, ctx, c[0]), self.val(st, fn, ctx, c[-1]))
        if k == 'ReturnStmt':
            return self.get(st, fn, ctx, c[0]) if c and c[0] >= 0 else 0
        if k in ('InitListExpr', 'CXXStdInitializerListExpr'):
            return ('list',) + tuple(self.val(st, fn, ctx, x) for x in c if x >= 0)
        if k == 'ExprWithCleanups' and c:
            return self.get(st, fn, ctx, c[0])
        if k == 'ImplicitValueInitExpr' or k == 'CXXScalarValueInitExpr':
            return 0
        if k == 'CXXThrowExpr':
            return 0
        if k in ('IfStmt', 'WhileStmt', 'ForStmt', 'DoStmt', 'CompoundStmt', 'BreakStmt', 'ContinueStmt', 'NullStmt', 'GotoStmt',
                 'SwitchStmt', 'CaseStmt', 'DefaultStmt', 'LabelStmt', 'CXXForRangeStmt', 'CXXTryStmt', 'CXXCatchStmt'):
            return 0
        return ('u', S(ctx, i), k)

    def conj(self, op, a, b):
        if op == '&&':
            if a == 0 or b == 0: return 0
            if a == 1: return b
            if b == 1: return a
            return ('&&', a, b)
        if a == 1 or b == 1: return 1
        if a == 0: return b
        if b == 0: return a
        return ('||', a, b)

    def wide(self, fn, i):
        """may the expression have a value that does not fit in one or two bytes?"""
        n = fn.nodes.get(i)
        if n is None or n['k'] in ('IntegerLiteral', 'CharacterLiteral', 'CXXBoolLiteralExpr') or 'cv' in n:
            return False
        if n['k'] in ('DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr', 'CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr') or not n.get('c'):
            return n.get('t', '').replace('const ', '') in WIDE
        return any(self.wide(fn, k) for k in n['c'] if k is not None)

    def incr(self, old, d, t):
        if type(old) is int:
            return old + d
        if type(old) is tuple and old[0] == 'iter':
            return ('iter', old[1], mk('+', old[2], d))
        if t.endswith('*'):
            return ('iter', old, d)
        return mk('+', old, d)

    def addrof(self, st, loc):
        loc = self.norm(st, loc)
        if loc[0] == 'D':
            return loc[1]
        if loc[0] == 'V':
            return loc[1]
        return ('&', loc)

    def arith(self, op, a, b, n):
        if op in ('+', '-') and n.get('t', '').endswith('*'):
            base = a if not (type(a) is int) else b
            off = b if base is a else a
            if type(base) is tuple and base[0] == 'iter':
                return ('iter', base[1], mk(op, base[2], off))
            return ('iter', base, off if op == '+' else mk('-', 0, off))
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if n and 'unsigned_cmp' in n:
                pass
            return mk(op, a, b)
        return mk(op, a, b)

    def declare(self, st, fn, ctx, v, i):
        lid = v['lid']
        key = (ctx, lid)
        if v.get('static'):
            return
        loc = ('L', lid, ctx)
        # a new instance of the local: forget the old one
        if loc in st.store:
            del st.store[loc]
        for l in list(st.store):
            if l != loc and self.inside(l, loc):
                del st.store[l]
        self.kill(st, S(ctx, i))
        st.env.pop(key, None)
        if v.get('bind'):
            src = self.get(st, fn, ctx, v['init']) if v['init'] >= 0 else ('u', S(ctx, i), 'b')
            for j, b in enumerate(v['bind']):
                if type(src) is tuple and src[0] == 'loc':
                    st.env[(ctx, b)] = ('ref', ('F', self.addrof(st, src[1]), '#%d' % j))
                else:
                    st.env[(ctx, b)] = ('ref', ('V', ('fv', src, '#%d' % j)))
            return
        if v['init'] < 0:
            return
        if v.get('ref'):
            x = self.get(st, fn, ctx, v['init'])
            if type(x) is tuple and x[0] == 'loc':
                st.env[key] = ('ref', self.norm(st, x[1]))
            else:
                st.env[key] = ('ref', ('V', x))
            return
        ini = fn.nodes.get(v['init'], {})
        x = self.get(st, fn, ctx, v['init'])
        if type(x) is tuple and x[0] == 'loc':
            x = self.read(st, x[1])
        if type(x) is tuple and x[0] == 'obj' and x[1] == 'at':
            return
        self.write(st, loc, x, S(ctx, i), notify=True)

    # ------------------------------------------------------------------ calls
    def construct(self, st, fn, ctx, i, n):
        c = n['c']
        rec = n.get('rec', '')
        if n.get('copy') and c:
            return self.val(st, fn, ctx, c[0])
        if rec in WRAP:
            if len(c) == 1:
                return self.val(st, fn, ctx, c[0])
            if len(c) == 0:
                return 0 if rec.endswith(('Tvar', 'Tlit')) else ('g', 'napsat::UNDEF')
            a, b = self.val(st, fn, ctx, c[0]), self.val(st, fn, ctx, c[1])
            return ('call', rec, a, b)
        args = [self.val(st, fn, ctx, x) if not (fn.nodes.get(x, {}).get('lv')) else self.get(st, fn, ctx, x) for x in c]
        tmp = ('L', 'tmp' + S(ctx, i), ctx)
        r = self.invoke(st, fn, ctx, i, n, ('&', tmp), args)
        if r is not None:
            if type(r) is list and n.get('fid') in self.P.funcs:
                out = []
                for s1, v in r:
                    if v != 0:
                        out.append((s1, v))
                        continue
                    fs = []
                    for l in list(s1.store):
                        if l[0] == 'F' and l[1] == ('&', tmp):
                            fs.append((l[2], s1.store.pop(l)))
                    out.append((s1, ('obj', rec, tuple(sorted(fs, key=repr)))))
                return out
            return r
        vals = tuple(self.unloc(st, a) for a in args)
        if rec == '__gnu_cxx::__normal_iterator' and len(vals) == 1:
            return vals[0]
        if not vals and rec in self.P.records:
            fields = {f['name']: f.get('iv') for f in self.P.records[rec]['fields']}
            return ('obj', rec, tuple((rec + '::' + k, int(v)) for k, v in fields.items() if v is not None))
        return ('ctor', rec) + vals if not n.get('arr') else ('u', S(ctx, i), 'arr')

    def construct_at(self, st, fn, ctx, i, n, addr):
        f = self.P.funcs.get(n.get('fid'))
        if f is None or not self.C.inline(self, f.fid, f.qn, len(self.stack)):
            return None
        args = [self.val(st, fn, ctx, x) if not (fn.nodes.get(x, {}).get('lv')) else self.get(st, fn, ctx, x) for x in n['c']]
        rs = self.run_inline(st, f, args, addr, ctx, i)
        return [s for s, _ in rs]

    def kill_new(self, st, t):
        self.kill(st, t[1])

    def unloc(self, st, v):
        if type(v) is tuple and v[0] == 'loc':
            return self.read(st, v[1])
        return v

    def call(self, st, fn, ctx, i, n):
        c = n['c']
        k = n['k']
        if n.get('indirect'):
            f = self.val(st, fn, ctx, c[0])
            args = [self.get(st, fn, ctx, x) for x in c[1:]]
            if type(f) is tuple and f[0] == 'func' and f[1] in self.P.funcs:
                n2 = dict(n); n2['fid'] = f[1]; n2['qn'] = f[2]; n2['pt'] = [p['t'] for p in self.P.funcs[f[1]].params]
                r = self.invoke(st, fn, ctx, i, n2, None, args)
                if r is not None:
                    return r
                return self.opaque(st, fn, ctx, i, n2, None, args)
            if type(f) is tuple and f[0] == 'lambda':
                r = self.call_lambda(st, fn, ctx, i, f, args)
                if r is not None:
                    return r
            return ('app', f) + tuple(self.unloc(st, a) for a in args)
        qn = n.get('qn', '')
        nm = qn.split('::')[-1]
        method = n.get('method')
        this = None
        if method:
            if not c:
                return ('u', S(ctx, i), 'call')
            if n.get('arrow') and k == 'CXXMemberCallExpr':
                this = self.val(st, fn, ctx, c[0])
            else:
                b = self.get(st, fn, ctx, c[0])
                if type(b) is tuple and b[0] == 'lambda':
                    this = b
                elif type(b) is tuple and b[0] == 'loc':
                    if b[1][0] == 'L' or b[1][0] == 'V':
                        bv = st.store.get(b[1]) if b[1][0] == 'L' else b[1][1]
                        if type(bv) is tuple and bv[0] == 'lambda':
                            this = bv
                    if this is None:
                        this = self.addrof(st, b[1])
                else:
                    this = b
            argn = c[1:]
        else:
            argn = c
        if method and type(this) is tuple and this[0] == 'lambda':
            if nm == 'operator()':
                args = [self.get(st, fn, ctx, x) for x in argn]
                r = self.call_lambda(st, fn, ctx, i, this, args)
                if r is not None:
                    return r
            elif nm.startswith('operator '):
                return this
        args = [self.get(st, fn, ctx, x) for x in argn]
        rec = qn.rsplit('::', 1)[0]
        # transparent integer wrappers
        if rec in WRAP or (rec == 'napsat' and nm.startswith('operator')) :
            r = self.wrap_call(st, fn, ctx, i, n, nm, this, args, c)
            if r is not NotImplemented:
                return r
        r = self.invoke(st, fn, ctx, i, n, this, args)
        if r is not None:
            return r
        return self.opaque(st, fn, ctx, i, n, this, args)

    def wrap_call(self, st, fn, ctx, i, n, nm, this, args, c):
        ops = {'operator==': '==', 'operator!=': '!=', 'operator<': '<', 'operator>': '>', 'operator<=': '<=', 'operator>=': '>=',
               'operator+': '+', 'operator-': '-', 'operator^': '^', 'operator>>': '>>', 'operator%': '%'}
        def thisval():
            return self.val(st, fn, ctx, c[0]) if not n.get('arrow') else self.read(st, ('D', this, '?'))
        if nm in ops and (len(args) + (1 if n.get('method') else 0)) == 2:
            a = thisval() if n.get('method') else self.unloc(st, args[0])
            b = self.unloc(st, args[-1])
            return mk(ops[nm], a, b)
        if nm in ('operator++', 'operator--', 'operator+=', 'operator-=', 'operator^=') and n.get('method'):
            l = self.get(st, fn, ctx, c[0])
            if type(l) is tuple and l[0] == 'loc':
                old = self.read(st, l[1])
                d = (1 if nm == 'operator++' else -1) if nm in ('operator++', 'operator--') else None
                nv = mk('+', old, d) if d is not None else mk(nm[8], old, self.unloc(st, args[0]))
                self.write(st, l[1], nv, S(ctx, i))
                return old if n.get('post') else self.read(st, l[1])
        if nm in ('operator=',):
            return NotImplemented
        if n.get('method') and nm in ('operator~', 'var', 'pol', 'satisfied', 'falsified', 'undefined', 'to_string', 'hash'):
            v = thisval()
            if nm == 'operator~':
                if type(v) is tuple and v[0] == 'call' and v[1] == '~lit':
                    return v[2]
                return ('call', '~lit', v)
            return ('call', n['qn'], v) + tuple(self.unloc(st, a) for a in args)
        return NotImplemented

    def call_lambda(self, st, fn, ctx, i, lam, args):
        f = self.P.funcs.get(lam[1])
        if f is None:
            return None
        if len(self.stack) >= self.C.max_depth or f.fid in self.stack:
            return None
        return self.run_inline(st, f, args, None, ctx, i, lam[2])

    def invoke(self, st, fn, ctx, i, n, this, args):
        ci = CallInfo()
        ci.qn, ci.fid, ci.args, ci.node, ci.fn, ci.ctx, ci.this = n.get('qn', ''), n.get('fid'), args, i, fn, ctx, this
        ci.method, ci.op, ci.depth = bool(n.get('method')), n.get('op'), len(self.stack)
        ci.name = ci.qn.split('::')[-1]
        ci.pt = n.get('pt', [])
        r = self.C.call(self, st, ci)
        if r is not None:
            return r
        f = self.P.funcs.get(n.get('fid'))
        if f is None:
            return self.builtin(st, fn, ctx, i, n, this, args)
        if len(self.stack) >= self.C.max_depth or f.fid in self.stack:
            return None
        if f.record and f.record.split('<')[0].endswith('indexed_vector') if hasattr(f, 'record') else False:
            r = self.builtin(st, fn, ctx, i, n, this, args)
            if r is not None:
                return r
        if not self.C.inline(self, f.fid, f.qn, len(self.stack)):
            return None
        return self.run_inline(st, f, args, this, ctx, i)

    def builtin(self, st, fn, ctx, i, n, this, args):
        """std containers / iterators / numeric helpers"""
        qn = n.get('qn', '')
        nm = qn.split('::')[-1]
        rec = qn.rsplit('::', 1)[0]
        vals = None
        base = rec.split('<')[0]
        cont = this is not None and ('vector' in base or 'basic_string' in base or base.endswith('::array') or 'span' in base or 'deque' in base)
        if cont:
            if nm in ('operator[]', 'at') and args:
                return ('loc', ('E', this, self.unloc(st, args[0]), n['t']))
            if nm in ('begin', 'cbegin', 'data'):
                return ('iter', this, 0)
            if nm in ('end', 'cend'):
                return ('iter', this, self.callterm(st, 'std::size', this, ()))
            if nm == 'size' or nm == 'length':
                return self.callterm(st, 'std::size', this, ())
            if nm == 'empty':
                return mk('==', self.callterm(st, 'std::size', this, ()), 0)
            if nm == 'back':
                return ('loc', ('E', this, mk('-', self.callterm(st, 'std::size', this, ()), 1), n['t']))
            if nm == 'front':
                return ('loc', ('E', this, 0, n['t']))
        if 'iterator' in rec or (nm.startswith('operator') and args and 'iterator' in ' '.join(n.get('pt', []))):
            if nm == 'operator*':
                v = self.val(st, fn, ctx, n['c'][0])
                return ('loc', self.norm(st, ('D', v, n['t'])))
            if nm == 'operator->':
                return self.val(st, fn, ctx, n['c'][0])
            if nm in ('operator++', 'operator--'):
                l = self.get(st, fn, ctx, n['c'][0])
                if type(l) is tuple and l[0] == 'loc':
                    old = self.read(st, l[1])
                    d = 1 if nm == 'operator++' else -1
                    self.write(st, l[1], ('iter', old[1], mk('+', old[2], d)) if type(old) is tuple and old[0] == 'iter' else ('iter', old, d), S(ctx, i))
                    return old if n.get('post') or len(n['c']) > 1 else l
            if nm in ('operator+', 'operator-') and len(n['c']) == 2:
                a, b = self.val(st, fn, ctx, n['c'][0]), self.val(st, fn, ctx, n['c'][1])
                if type(a) is tuple and a[0] == 'iter' and type(b) is tuple and b[0] == 'iter' and nm == 'operator-':
                    return mk('-', a[2], b[2]) if a[1] == b[1] else ('-', a, b)
                if type(a) is tuple and a[0] == 'iter':
                    return ('iter', a[1], mk(nm[8], a[2], b))
                return mk(nm[8], a, b) if nm == 'operator-' else ('iter', a, b)
            if nm in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
                a, b = self.val(st, fn, ctx, n['c'][0]), self.val(st, fn, ctx, n['c'][1])
                if type(a) is tuple and a[0] == 'iter' and type(b) is tuple and b[0] == 'iter' and a[1] == b[1]:
                    return mk(nm[8:], a[2], b[2])
                return mk(nm[8:], a, b)
            if nm in ('operator+=', 'operator-='):
                l = self.get(st, fn, ctx, n['c'][0])
                v = self.val(st, fn, ctx, n['c'][1])
                if type(l) is tuple and l[0] == 'loc':
                    old = self.read(st, l[1])
                    o = nm[8]
                    self.write(st, l[1], ('iter', old[1], mk(o, old[2], v)) if type(old) is tuple and old[0] == 'iter' else ('iter', old, v), S(ctx, i))
                    return l
        if nm in ('move', 'forward', 'addressof', 'as_const') and qn.startswith('std::') and len(args) == 1:
            return args[0] if nm != 'addressof' else self.addr(st, fn, ctx, n['c'][0])
        if qn in ('std::max', 'std::min') and len(args) == 2:
            a, b = self.unloc(st, args[0]), self.unloc(st, args[1])
            if type(a) is int and type(b) is int:
                return max(a, b) if nm == 'max' else min(a, b)
            return (nm,) + tuple(sorted((a, b), key=repr))
        if qn in ('std::swap', 'std::iter_swap') and len(args) == 2:
            ls = []
            for a in args:
                a2 = self.unloc(st, a) if qn.endswith('iter_swap') else a
                if type(a2) is tuple and a2[0] == 'iter':
                    a2 = ('loc', ('E', a2[1], a2[2], '?'))
                ls.append(a2)
            pt = n.get('pt') or ['?']
            if all(type(a) is tuple and a[0] == 'loc' for a in ls) and '<' not in pt[0]:
                x, y = self.read(st, ls[0][1]), self.read(st, ls[1][1])
                self.write(st, ls[0][1], y, S(ctx, i))
                self.write(st, ls[1][1], x, S(ctx, i))
                return 0
        if qn == 'std::exchange' and len(args) == 2 and type(args[0]) is tuple and args[0][0] == 'loc':
            x = self.read(st, args[0][1])
            self.write(st, args[0][1], self.unloc(st, args[1]), S(ctx, i))
            return x
        if nm == 'operator bool' and '_Bit_reference' in qn and type(this) is tuple and this[0] == '&' and this[1][0] == 'E':
            return mk('!', mk('==', self.read(st, this[1]), 0))
        if nm == 'operator bool' and this is not None:
            return mk('!', mk('==', ('call', qn, this), 0))
        return None

    def opaque(self, st, fn, ctx, i, n, this, args):
        fid = n.get('fid')
        f = self.P.funcs.get(fid)
        qn = n.get('qn', '')
        nm = qn.split('::')[-1]
        site = S(ctx, i)
        ret = n.get('t', '')
        vals = tuple(self.unloc(st, a) for a in args)
        if n['k'] == 'CXXOperatorCallExpr' and nm == 'operator=' and f is None:
            l = self.get(st, fn, ctx, n['c'][0])
            v = self.val(st, fn, ctx, n['c'][1])
            if type(l) is tuple and l[0] == 'loc':
                self.write(st, l[1], v, site)
            return l
        if f is not None:
            mods = self.E.mod[fid]
            if not mods:
                res = self.callterm(st, qn, this, vals, fid)
                if tsize(res) <= MAXTERM:
                    return ('loc', ('D', res, ret)) if n.get('lv') else res
            self.kill(st, site)
            self.havoc(st, mods, 'h' + site)
            for a, t in zip(args, n.get('pt', [])):
                if type(a) is tuple and a[0] == 'loc' and '&' in t and not t.startswith('const') and a[1][0] != 'V':
                    if self.writes_param(f, a, t):
                        self.write(st, a[1], ('r', site, 'ref'), 'a' + site, notify=False)
            return ('loc', ('D', ('r', site, qn), ret)) if n.get('lv') else ('r', site, qn)
        # external
        self.kill(st, site)
        if this is not None and not n.get('constm') and nm not in NONMUT:
            # mutating std method: the object changes
            if type(this) is tuple and this[0] == '&':
                self.mutate(st, this, site, ('r', site, nm))
            return ('loc', ('D', ('r', site, nm), ret)) if n.get('lv') else ('r', site, nm)
        if this is None:
            for a, t in zip(args, n.get('pt', [])):
                if type(a) is tuple and a[0] == 'loc' and '&' in t and not t.startswith('const') and '&&' not in t and a[1][0] not in ('V',):
                    self.mutate(st, ('&', a[1]), site, ('r', site, 'ref'))
                elif t.endswith('*') and not t.startswith('const') and type(a) is tuple and a[0] == '&' and qn.startswith('std::'):
                    # the function may write through the pointer
                    self.mutate(st, a, site, ('r', site, 'out'))
        if this is not None or nm.startswith('operator') or qn.startswith('std::'):
            res = self.callterm(st, qn, this, vals)
            if tsize(res) <= MAXTERM and nm not in ('getline', 'now', 'getenv'):
                return ('loc', ('D', res, ret)) if n.get('lv') else res
        return ('loc', ('D', ('r', site, nm), ret)) if n.get('lv') else ('r', site, nm)

    def mutate(self, st, addr, site, val):
        """the object at addr gets an unknown new content"""
        loc = self.norm(st, addr[1])
        self.write(st, loc, val, 'w' + site)
        k = ('E',) + akey(loc)
        st.ep[k] = 'w' + site
        for l in list(st.store):
            if self.inside(l, loc) or (akey(l) == k and not self.differ(st, l[1], addr)):
                del st.store[l]
        st.store.pop(loc, None)
        if loc[0] == 'L':
            st.ep[loc] = 'w' + site
        else:
            st.ep[akey(loc)] = 'w' + site

    def writes_param(self, f, a, t):
        return any(x[0] == 'L' for x in self.E.direct[f.fid]) or any(x == ('D', t.replace('&', '').strip()) for x in self.E.mod[f.fid])

    def run_inline(self, st, f, args, this, ctx, i, caps=None):
        self.inlined_sites += 1
        nctx = ctx + '/' + str(i)
        # drop a previous activation of the same context
        for k in [k for k in st.env if k[0] == nctx]:
            del st.env[k]
        for l in [l for l in st.store if _inctx(l, nctx)]:
            del st.store[l]
        if this is not None:
            st.env[(nctx, 'this')] = this
        for nm, v in caps or ():
            if nm == 'this':
                st.env[(nctx, 'this')] = v
            else:
                st.env[(nctx, 'cap', nm)] = v
        for p, a in zip(f.params, args):
            if '&' in p['t']:
                if type(a) is tuple and a[0] == 'loc':
                    st.env[(nctx, p['lid'])] = ('ref', self.norm(st, a[1]))
                else:
                    st.env[(nctx, p['lid'])] = ('ref', ('V', a))
            else:
                st.store[('L', p['lid'], nctx)] = self.unloc(st, a)
        outer = st.tmp
        st.tmp = {}
        rs = self.run(f, st, nctx)
        out = []
        seen = set()
        for s, v in rs:
            # results must not mention the callee's locals by location
            if type(v) is tuple and v[0] == 'loc' and v[1][0] == 'L' and v[1][2] == nctx:
                v = self.read(s, v[1])
            for k in [k for k in s.env if k[0] == nctx or k[0].startswith(nctx + '/')]:
                del s.env[k]
            for l in [l for l in s.store if _inctx(l, nctx)]:
                del s.store[l]
            s.tmp = dict(outer)
            kk = (s.key(), v)
            if kk in seen:
                continue
            seen.add(kk)
            out.append((s, v))
        return out

    # ------------------------------------------------------------------ function runner
    def run(self, f, st, ctx=''):
        """-> list of (state, return value) for all normal exits"""
        if not f.blocks:
            raise AnalysisError('no CFG for ' + f.qn)
        self.visited_funcs.add(f.fid)
        self.stack.append(f.fid)
        sfx = SFX[0]
        if len(self.stack) == 1:
            SFX[0] = ''
        try:
            return self._run(f, st, ctx)
        finally:
            self.stack.pop()
            SFX[0] = sfx

    def enter(self, s, f, loops, pred, b, ctx):
        """loop peeling: phase 0 = first iteration, 1 = arbitrary iteration (everything the loop writes is renamed at
        its head; nothing is checked and its exits are dropped), 2 = the iteration after it; the path ends at the
        next back edge.  Every iteration of a run is the first or follows an arbitrary one, every exit leaves from
        one of these."""
        ph = s.ph
        # leave loops
        while ph and ph[-1][0][0] == ctx and b not in loops[ph[-1][0][1]]:
            if ph[-1][1] == 1:
                return False
            ph = ph[:-1]
            s.li = s.li[:-1]
        s.ph = ph
        if b not in loops:
            return True
        key = (ctx, b)
        if ph and ph[-1][0] == key:
            p = ph[-1][1]
            self.C.backedge(self, s, f, b, ctx, p)
            if p == 2:
                return False
            if p == 1:
                self.induct_check(s, f, b, ctx)
            s.ph = ph[:-1] + ((key, p + 1),)
            if p == 0:
                SFX[0] = ''.join('~%s.%d' % (h[1], q) for h, q in s.ph if q)
                self.loop_havoc(s, f, b, loops[b], ctx)
            self.C.loophead(self, s, f, b, ctx)
        else:
            s.ph = ph + ((key, 0),)
            mods, locs, _, other = self.loop_info(f, b, loops[b])
            li = [(lid, s.store[self.lloc(s, ctx, lid)]) for lid in sorted(locs) if self.lloc(s, ctx, lid) in s.store]
            subs = {self.lloc(s, ctx, x[1]) for x in other if type(x) is tuple and x[0] == 'sub'}
            this = s.env.get((ctx, 'this'))
            cand = {l for l in s.store if l[0] == 'F' and l[1] and type(l[1]) is tuple and l[1][0] == '&' and l[1][1] in subs}
            if this is not None:
                cand |= {('F', this, m[1]) for m in mods if m[0] == 'F'}
            for l in sorted(cand, key=repr):
                v = self.read(s, l)
                if not (type(v) is tuple and v[0] in ('obj', 'ctor')):
                    li.append((l, v))
            s.li = s.li + ((tuple(li), frozenset(s.facts.items()) if self.C.forget else None),)
            self.C.loophead(self, s, f, b, ctx)
        return True

    def lloc(self, s, ctx, lid):
        if type(lid) is tuple:
            return lid
        b = s.env.get((ctx, lid))
        return b[1] if type(b) is tuple and b[0] == 'ref' else ('L', lid, ctx)

    def step(self, v0, v1):
        """constant difference of two values of a loop variable"""
        if type(v0) is int and type(v1) is int:
            return v1 - v0
        it = type(v0) is tuple and v0[0] == 'iter', type(v1) is tuple and v1[0] == 'iter'
        if it == (True, True):
            return self.step(v0[2], v1[2]) if v0[1] == v1[1] else None
        if it == (False, True) and v1[1] == v0:
            return v1[2] if type(v1[2]) is int else None
        d = mk('-', v1, v0)
        if type(d) is int:
            return d
        if type(v1) is tuple and v1[0] in ('+', '-') and v1[1] == v0 and type(v1[2]) is int:
            return v1[2] if v1[0] == '+' else -v1[2]
        if type(v0) is tuple and v0[0] in ('+', '-') and type(v0[2]) is int and type(v1) is tuple and v1[0] in ('+', '-') and v1[1] == v0[1] and type(v1[2]) is int:
            return (v1[2] if v1[0] == '+' else -v1[2]) - (v0[2] if v0[0] == '+' else -v0[2])
        d = mk('-', v0, v1)
        return -d if type(d) is int else None

    def closed(self, v0, add):
        """v0 + add"""
        if type(v0) is tuple and v0[0] == 'iter':
            return ('iter', v0[1], mk('+', v0[2], add))
        return mk('+', v0, add)

    def induct(self, s, li, head, ctx, site, lid, v, nv):
        """hypothesis about loop variable lid at the head of an arbitrary iteration: init + c*K (or a sum)"""
        if lid not in li:
            return nv
        v0 = li[lid]
        K = ('lv', site, 'K')
        key = (ctx, head, lid)
        if key in self.black:
            h = self.black[key]
            if h is None:
                return nv
            d = self.inst(s, li, ctx, h[1])
            if d is None or self.closed(v0, _norm(subst(d, lambda t: 0 if t == ('bv',) else None))) != v:
                self.black[key] = None
                self.dead.add(key)
                raise Retry()
            return self.closed(v0, ('sum', d, K))
        c = self.step(v0, v)
        if c is None:
            self.black[key] = None
            return nv
        if type(nv) is tuple and nv[0] == 'iter' and not (type(v0) is tuple and v0[0] == 'iter'):
            v0 = ('iter', v0, 0)
        return self.closed(v0, mk('*', K, c))

    def inst(self, s, li, ctx, d):
        """a per-iteration term over loop variables, as a function of the iteration number"""
        fail = []

        def f(t):
            if t[0] == 'iv':
                v0 = li.get(t[1])
                v1 = s.store.get(self.lloc(s, ctx, t[1]))
                c = self.step(v0, v1) if v0 is not None and v1 is not None else None
                if c is None:
                    fail.append(t)
                    return t
                if type(v0) is tuple and v0[0] == 'iter':
                    v0 = v0[2]
                elif type(v1) is tuple and v1[0] == 'iter':
                    v0 = 0
                return mk('+', v0, mk('*', ('bv',), c))
            return None
        d = subst(d, f)
        return None if fail else _norm(d)

    def induct_check(self, s, f, head, ctx):
        """end of an arbitrary iteration: do the hypotheses carry over?"""
        bad = False
        if not s.li or s.li[-1][:1] != ('h',):
            return
        site = s.li[-1][1]
        K = ('lv', site, 'K')
        for lid, at in s.li[-1][2]:
            key = (ctx, head, lid)
            v = self.read(s, lid) if type(lid) is tuple else s.store.get(self.lloc(s, ctx, lid))
            if v is None:
                continue
            h0, hyp = at
            if key in self.black and self.black[key] is None:
                d = self.delta(h0, v)
                if d is not None:
                    reps = {}
                    for l2, (n2, c2) in s.li[-1][2]:
                        x = n2[2] if type(n2) is tuple and n2[0] == 'iter' else n2
                        if c2 is not None and occurs(x, K):
                            reps.setdefault(x, ('iv', l2))
                    d = subst(d, lambda t: reps.get(t))
                self.upd.setdefault(key, set()).add((site, d))
                continue
            if key in self.black:
                d = self.delta(h0, v)
                want = h0[2] if type(h0) is tuple and h0[0] == '+' and len(h0) == 3 and type(h0[2]) is tuple and h0[2][0] == 'sum' else h0
                want = h0[1] if type(h0) is tuple and h0[0] == '+' and len(h0) == 3 and type(h0[1]) is tuple and h0[1][0] == 'sum' else want
                w = _norm(subst(want[1], lambda t: K if t == ('bv',) else None)) if type(want) is tuple and want[0] == 'sum' else None
                if d is None or w != d:
                    self.black[key] = None
                    self.dead.add(key)
                    bad = True
                continue
            if self.step(h0, v) != hyp:
                self.black[key] = None
                bad = True
        if bad:
            raise Retry()

    def promote(self):
        """after a full run: blacklisted variables whose every update adds the same iteration-dependent term"""
        ch = False
        for key, h in list(self.black.items()):
            u = self.upd.get(key)
            if h is not None or key in self.dead or not u:
                continue
            self.dead.add(key)
            ds = {d for _, d in u}
            sites = {x for x, _ in u}
            if len(ds) != 1 or None in ds:
                continue
            d = next(iter(ds))
            if _has(d, lambda t: t[0] in ('u', 'r', 'new', 'app') or t[0] == 'lv' and t[1] in sites or t[0] == 'm' and t[2] != 0):
                continue
            self.black[key] = ('acc', d)
            ch = True
        self.upd = {}
        return ch

    def delta(self, h0, v):
        if type(v) is tuple and v[0] == '+' and len(v) == 3:
            if v[1] == h0: return v[2]
            if v[2] == h0: return v[1]
        return None

    def checked(self, s):
        return all(p != 1 for _, p in s.ph)

    def phase(self, s):
        return s.ph[-1][1] if s.ph else None

    def _run(self, f, st, ctx):
        loops = f.loops()
        cross = f.cross()
        live = locals_live(f)
        outs, outkeys = [], set()
        seen = {}
        work = [(f.entry, None, st)]
        depth = len(self.stack) - 1
        nst = 0
        # ctor initialisers are CFG elements (ids of init expressions): map to fields
        inits = {it['e']: it['field'] for it in (getattr(f, 'inits', None) or []) if 'field' in it}
        while work:
            b, pred, s = work.pop()
            if self.C.peel and not self.enter(s, f, loops, pred, b, ctx):
                continue
            if b == f.exit:
                v = s.tmp.get('ret', 0)
                self.returned = 'ret' in s.tmp or f.ret == 'void'
                s.tmp = {}
                k = (s.key(), v) if self.returned else (s.key(), v, 0)
                if k not in outkeys:
                    outkeys.add(k)
                    self.paths += 1
                    self.C.ret(self, s, v, f, depth)
                    outs.append((s, v))
                continue
            blk = f.blocks[b]
            if self.C.peel:
                SFX[0] = ''.join('~%s.%d' % (h[1], p) for h, p in s.ph if p)
            elif b in loops:
                if self.C.preloop(self, s, f, b, ctx) is False:
                    continue
                self.loop_havoc(s, f, b, loops[b], ctx)
                self.C.loophead(self, s, f, b, ctx)
            # prune temporaries and dead locals
            if pred is not None:
                keep = cross[pred]
                s.tmp = {k: v for k, v in s.tmp.items() if (k in keep) or (type(k) is tuple and k[0] == 'br' and self.br_live(f, k[1], b)) or k == 'ret'}
            lv = live.get(b)
            if lv is not None and not getattr(self.C, 'keeplocals', False):
                for key in [k for k in s.env if k[0] == ctx and type(k[1]) is int and k[1] not in lv]:
                    del s.env[key]
                for l in [l for l in s.store if l[0] == 'L' and l[2] == ctx and l[1] not in lv and not self.addr_taken(s, l)]:
                    del s.store[l]
                if not self.C.peel:
                    for d in (s.ep, s.ver):
                        for l in [l for l in d if l[0] == 'L' and l[2] == ctx and l[1] not in lv and not self.addr_taken(s, l)]:
                            del d[l]
                if self.C.merge:
                    self.prune_facts(s, f, ctx)
            if self.C.merge:
                k = (s.cl, self.mergekey(s), frozenset(kk for kk in s.tmp.items()))
                old = seen.setdefault(b, {}).get(k)
                if old is not None:
                    m = self.join(old, s, ctx, b)
                    if m is None:
                        continue
                    seen[b][k] = m
                    s = m.copy()
                else:
                    seen[b][k] = s.copy()
            else:
                k = s.key()
                if k in seen.setdefault(b, set()):
                    continue
                seen[b].add(k)
            nst += 1
            self.steps += 1
            if nst > self.C.max_states or self.steps > self.max_steps:
                raise Blowup('%s: more than %d abstract states' % (f.qn, nst))
            self.C.block(self, s, f, b, depth)
            states = [s]
            for e in blk['e']:
                nxt = []
                node = f.nodes[e]
                for s1 in states:
                    r = self.eval(s1, f, ctx, e)
                    if type(r) is list:
                        for s2, v in r:
                            if node['k'] == 'ReturnStmt':
                                s2.tmp['ret'] = v
                            s2.tmp[e] = v
                            nxt.append(s2)
                    else:
                        if node['k'] == 'ReturnStmt':
                            s1.tmp['ret'] = r if not (type(r) is tuple and r[0] == 'loc' and not f.ret.endswith('&')) else self.read(s1, r[1])
                            if type(r) is tuple and r[0] == 'loc' and not f.ret.endswith('&') and 'napsat' in f.ret:
                                pass
                        elif e in inits:
                            t = s1.env.get((ctx, 'this'), ('this',))
                            v = self.unloc(s1, r)
                            if v != 0 or True:
                                self.write(s1, ('F', t, inits[e]), v, S(ctx, e))
                        s1.tmp[e] = r
                        if node['k'] == 'CXXThrowExpr':
                            self.C.throw(self, s1, f)
                        nxt.append(s1)
                states = nxt
            for s1 in states:
                self.successors(f, b, blk, s1, ctx, work)
        return outs

    def br_live(self, f, nid, b):
        return True

    def prune_facts(self, s, f, ctx):
        pass

    def addr_taken(self, s, l):
        a = ('&', l)
        for v in s.env.values():
            if (v[0] == 'ref' and (v[1] == l or occurs(v[1], a))) if type(v) is tuple else False:
                return True
            if type(v) is tuple and occurs(v, a):
                return True
        for k, v in s.store.items():
            if k != l and (occurs(v, a) or (k[0] != 'L' and occurs(k, a))):
                return True
            if k != l and type(v) is tuple and occurs(v, l):
                return True
        for v in s.env.values():
            if type(v) is tuple and occurs(v, l):
                return True
        return False

    def mergekey(self, s):
        return frozenset((k, v) for k, v in s.facts.items() if self.C.keyfact(k))

    def join(self, a, b, ctx, blk):
        """intersection join; None if b adds nothing to a"""
        m = a.copy()
        ch = False
        for k, v in a.facts.items():
            if b.facts.get(k) != v:
                del m.facts[k]
                ch = True
        for dn in ('env', 'store'):
            da, db, dm = getattr(a, dn), getattr(b, dn), getattr(m, dn)
            for k, v in da.items():
                w = db.get(k)
                if w != v:
                    if w is None and k not in db:
                        nv = ('u', 'j' + S(ctx, blk), repr(k)[:80])
                    else:
                        nv = ('u', 'j' + S(ctx, blk), repr(k)[:80])
                    if type(v) is tuple and type(w) is tuple and v[0] == w[0] == 'iter' and v[1] == w[1]:
                        nv = ('iter', v[1], nv)
                    if type(v) is tuple and v[0] == 'ref':
                        nv = ('ref', ('V', nv))
                    if v != nv:
                        dm[k] = nv
                        ch = True
            for k in db:
                if k not in da:
                    nv = ('u', 'j' + S(ctx, blk), repr(k)[:80])
                    dm[k] = ('ref', ('V', nv)) if type(db[k]) is tuple and db[k][0] == 'ref' else nv
                    ch = True
        return m if ch else None

    def successors(self, f, b, blk, s, ctx, work):
        succ = blk['s']
        if blk.get('noret'):
            return
        t = blk.get('t')
        live = [x for x in succ if x >= 0]
        if t is None or len(live) == 0:
            for x in live[1:]:
                work.append((x, b, s.copy()))
            if live:
                work.append((live[0], b, s))
            return
        tk = f.nodes[t]['k']
        if tk == 'SwitchStmt':
            v = self.val(s, f, ctx, blk['tc']) if 'tc' in blk else ('u', S(ctx, b), 'sw')
            cases = []
            for x in live:
                lab = f.blocks[x].get('lab')
                if lab is not None and f.nodes[lab]['k'] == 'CaseStmt':
                    cases.append((x, self.casevals(f, lab)))
                else:
                    cases.append((x, None))
            allv = [v2 for _, vs in cases if vs for v2 in vs]
            for x, vs in cases:
                if vs:
                    for cv in vs:
                        s2 = s.copy()
                        if s2.assume(mk('==', v, cv), True) and self.C.branch(self, s2, mk('==', v, cv), True, f, b):
                            work.append((x, b, s2))
                else:
                    s2 = s.copy()
                    ok = True
                    for cv in allv:
                        if not s2.assume(mk('==', v, cv), False):
                            ok = False
                            break
                    if ok:
                        work.append((x, b, s2))
            return
        if len(succ) == 2 and 'tc' in blk and tk not in ('CXXTryStmt', 'GotoStmt', 'BreakStmt', 'ContinueStmt'):
            tcn = blk['tc']
            v = self.val(s, f, ctx, tcn)
            a = truth(v)
            for idx, val in ((0, True), (1, False)):
                if succ[idx] < 0:
                    continue
                d = s.decide(a)
                if d is not None and d != val:
                    continue
                s2 = s.copy()
                if d is None:
                    if not self.assume(s2, a, val):
                        continue
                    if not self.C.branch(self, s2, a, val, f, b):
                        continue
                if tk in ('BinaryOperator', 'ConditionalOperator'):
                    s2.tmp[('br', t)] = val
                work.append((succ[idx], b, s2))
            return
        for x in live[1:]:
            work.append((x, b, s.copy()))
        work.append((live[0], b, s))

    def assume(self, s, a, val):
        while type(a) is tuple and a[0] == '!':
            a, val = a[1], not val
        if type(a) is tuple and a[0] == '&&' and val:
            return self.assume(s, a[1], True) and self.assume(s, a[2], True)
        if type(a) is tuple and a[0] == '||' and not val:
            return self.assume(s, a[1], False) and self.assume(s, a[2], False)
        return s.assume(a, val)

    def casevals(self, f, lab):
        out = []
        n = f.nodes[lab]
        while n['k'] == 'CaseStmt':
            v = f.nodes[n['val']]
            if 'cv' in v:
                out.append(int(v['cv']))
            subs = [x for x in n['c'] if x != n['val']]
            if not subs or subs[-1] not in f.nodes:
                break
            n = f.nodes[subs[-1]]
        return out

    # ------------------------------------------------------------------ loops
    def loop_info(self, f, head, body):
        key = (f.fid, head)
        c = self.__dict__.setdefault('_li', {})
        if key in c:
            return c[key]
        mods, locs, incdec, other = set(), set(), set(), set()
        for b in body:
            for e in f.blocks[b]['e']:
                n = f.nodes[e]
                k = n['k']
                tgt = None
                if k in ('BinaryOperator', 'CompoundAssignOperator') and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                    tgt = n['c'][0]
                    kind = 'inc' if n['op'] in ('+=', '-=') else 'oth'
                elif k == 'UnaryOperator' and n['op'] in ('++', '--'):
                    tgt, kind = n['c'][0], 'inc'
                elif k in ('CXXOperatorCallExpr', 'CXXMemberCallExpr') and n['c']:
                    nm = n.get('qn', '').split('::')[-1]
                    if n['fid'] not in self.P.funcs:
                        if nm in ('operator++', 'operator--', 'operator+=', 'operator-='):
                            tgt, kind = n['c'][0], 'inc'
                        elif not n.get('constm') and nm not in ('operator[]', 'operator*', 'begin', 'end', 'size', 'back', 'front', 'data', 'operator->', 'operator()') and n.get('method'):
                            tgt, kind = n['c'][0], 'oth'
                    elif n.get('method') and not n.get('constm') and (n.get('qn', '').rsplit('::', 1)[0] in WRAP):
                        if nm in ('operator++', 'operator--', 'operator+=', 'operator-='):
                            tgt, kind = n['c'][0], 'inc'
                        elif nm in ('operator=', 'operator^='):
                            tgt, kind = n['c'][0], 'oth'
                    elif n.get('method') and not n.get('constm'):
                        tgt, kind = n['c'][0], 'call'
                if tgt is not None:
                    from .effects import lv_root
                    r = lv_root(f, tgt)
                    if r:
                        if r[0] == 'L':
                            if kind != 'call' or True:
                                if self.direct_local(f, tgt):
                                    locs.add(r[1])
                                    (incdec if kind == 'inc' else other).add(r[1])
                                else:
                                    # element/field of a local object: sub-locations change
                                    other.add(('sub', r[1]))
                        elif kind != 'call':
                            mods.add(r)
                    bl = self.base_local(f, tgt)
                    w = f.nodes.get(tgt)
                    while w is not None and 'ck' in w and w.get('c'):
                        w = f.nodes.get(w['c'][0])
                    if bl is not None and w is not None and w['k'] == 'MemberExpr' and w.get('qn') in WRAPVAL:
                        locs.add(bl)
                        (incdec if kind == 'inc' else other).add(bl)
                    elif bl is not None and not (r and r[0] == 'L' and r[1] == bl):
                        other.add(('sub', bl))
                if 'fid' in n and k != 'DeclRefExpr':
                    g = self.P.funcs.get(n['fid'])
                    if g is not None:
                        mods |= self.E.mod[g.fid]
                    from .effects import lv_root
                    if 'pt' in n:
                        off = 1 if n.get('method') else 0
                        for a, t in zip(n['c'][off:], n['pt']):
                            if '&' in t and not t.startswith('const') and '&&' not in t and (g is None and not n.get('method') and not n['qn'].startswith(('std::max', 'std::min', 'std::move', 'std::forward', '__gnu_cxx')) or (g is not None and ('D', t.replace('&', '').strip()) in self.E.mod[g.fid])):
                                r = lv_root(f, a)
                                if r and r[0] == 'L':
                                    locs.add(r[1]); other.add(r[1])
                                elif r:
                                    mods.add(r)
                if k == 'LambdaExpr' or n.get('indirect'):
                    g = self.P.funcs.get(n.get('fid'))
                    if g is not None:
                        mods |= self.E.mod[g.fid]
        c[key] = (mods, locs, incdec - other, other)
        return c[key]

    def base_local(self, f, i):
        """the local object an lvalue like x.f or x.f.g is part of"""
        n = f.nodes.get(i)
        while n is not None and n.get('c') and ('ck' in n or n['k'] == 'MemberExpr' and not n.get('arrow') or n['k'] == 'UnaryOperator' and n['op'] in ('++', '--')
                                                or n['k'] in ('BinaryOperator', 'CompoundAssignOperator') and n['op'].endswith('=')
                                                or n['k'] == 'CXXOperatorCallExpr' and n.get('qn', '').split('::')[-1] in ('operator++', 'operator--', 'operator+=', 'operator-=', 'operator=')):
            n = f.nodes.get(n['c'][0])
        return n['lid'] if n is not None and n['k'] == 'DeclRefExpr' and 'lid' in n else None

    def direct_local(self, f, i):
        n = f.nodes.get(i)
        while n is not None and ('ck' in n or n['k'] in ('UnaryOperator', 'CompoundAssignOperator', 'BinaryOperator')) and n.get('c'):
            if n['k'] == 'UnaryOperator' and n['op'] == '*':
                return False
            n = f.nodes.get(n['c'][0])
        return n is not None and n['k'] == 'DeclRefExpr'

    def loop_havoc(self, s, f, head, body, ctx):
        mods, locs, incdec, other = self.loop_info(f, head, body)
        site = 'b' + S(ctx, head)
        new = {}
        hyps = []
        li, entry = {}, None
        if self.C.peel and s.li:
            li, entry = dict(s.li[-1][0]), s.li[-1][1]
        newf = {}
        lbs = []
        for loc in [x for x in li if type(x) is tuple]:
            v = self.read(s, loc)
            if v == li[loc] or (ctx, head, loc) in self.black and self.black[(ctx, head, loc)] is None:
                continue
            c = self.step(li[loc], v)
            nv = self.induct(s, li, head, ctx, site, loc, v, None)
            if nv is not None:
                newf[loc] = nv
                hyps.append((loc, (nv, c)))
        for lid in sorted(locs):
            b = s.env.get((ctx, lid))
            loc = ('L', lid, ctx)
            if type(b) is tuple and b[0] == 'ref':
                loc = b[1]
                if loc[0] == 'V':
                    continue
            v = s.store.get(loc)
            name = ('lv', site, lid)
            nv = name
            if lid in incdec and type(v) is tuple and v[0] == 'iter':
                nv = ('iter', v[1], name)
            elif lid in incdec and type(v) is tuple and v[0] in ('m', 'new', 'p', 'r') and self.ptr_local(f, lid):
                nv = ('iter', v, name)
            if self.C.peel and s.ph and v is not None:
                nv = self.induct(s, li, head, ctx, site, lid, v, nv)
                c = self.step(li[lid], v) if lid in li else None
                hyps.append((lid, (nv, c)))
            new[loc] = nv
            if lid in incdec and self.only_inc(f, head, body, lid):
                w = v[2] if type(v) is tuple and v[0] == 'iter' and type(nv) is tuple and nv[0] == 'iter' and v[1] == nv[1] else v
                lb = w if type(w) is int else next((k[2] for k in s.facts if k[0] == 'lb' and k[1] == name), None) if has_only(w, name) else None
                if lb is not None:
                    lbs.append((name, lb))
        if self.C.peel and s.li:
            s.li = s.li[:-1] + (('h', site, tuple(hyps)),)
            if entry is not None:
                s.facts = {k: v for k, v in s.facts.items() if (k, v) in entry}
        self.kill(s, site)
        self.kill(s, site + '!')
        if mods:
            self.havoc(s, mods, site)
        subs = [('L', x[1], ctx) for x in other if type(x) is tuple and x[0] == 'sub']
        for loc in list(new) + subs:
            if loc[0] == 'L':
                b = s.env.get((ctx, loc[1])) if loc[2] == ctx else None
                if type(b) is tuple and b[0] == 'ref':
                    loc = b[1]
            for l in list(s.store):
                if l != loc and self.inside(l, loc) and not (loc in subs and loc not in new and l[0] == 'F' and l[1] == ('&', loc) and ('F', l[2]) not in mods):
                    del s.store[l]
            if loc[0] == 'L':
                s.ep[('E',) + akey(loc)] = site
                s.ep[loc] = site
                s.ver[loc] = site + '!'
                w = s.store.get(loc)
                if loc not in new and type(w) is tuple and w[:1] == ('obj',) and len(w) == 3 and type(w[2]) is tuple:
                    s.store[loc] = ('obj', w[1], tuple((q, ('m', ('F', ('&', loc), q), site) if ('F', q) in mods else x) for q, x in w[2]))
        for loc, nv in new.items():
            if loc[0] == 'L':
                s.store[loc] = nv
            else:
                self.write(s, loc, nv, site + 'w', notify=False)
        for loc, nv in newf.items():
            s.store[loc] = nv
        for name, lb in lbs:
            s.facts[('lb', name, lb)] = True
        self.gc(s)

    def only_inc(self, f, head, body, lid):
        """every change of the local in the loop is an increment"""
        c = self.__dict__.setdefault('_oi', {})
        key = (f.fid, head, lid)
        if key not in c:
            ok = True
            for b in body:
                for e in f.blocks[b]['e']:
                    n = f.nodes[e]
                    if n.get('op') in ('--', '-=', '+=') and n['c'] and self.base_local(f, n['c'][0]) == lid:
                        ok = False
                    if n['k'] in ('CXXOperatorCallExpr', 'CXXMemberCallExpr') and n.get('qn', '').split('::')[-1] in ('operator--', 'operator-=', 'operator+=') and n['c'] and self.base_local(f, n['c'][0]) == lid:
                        ok = False
            c[key] = ok
        return c[key]

    def gc(self, s):
        if getattr(self.C, "keepfacts", False):
            return
        names = set()
        for d in (s.env, s.store, s.tmp):
            for v in d.values():
                names |= mentions(v)
        for l in s.store:
            names |= mentions(l)
        names |= mentions(s.cl) if type(s.cl) is tuple else set()
        names |= set(s.ep.values()) | set(s.ver.values())
        for k in list(s.facts):
            if not mentions(k) <= names:
                del s.facts[k]

    def ptr_local(self, f, lid):
        for n in f.nodes.values():
            if n['k'] == 'DeclRefExpr' and n.get('lid') == lid:
                return n['t'].endswith('*')
        return False


def _norm(t):
    """rebuild arithmetic terms canonically after a substitution"""
    if type(t) is not tuple or not t:
        return t
    t = tuple(_norm(x) if type(x) is tuple else x for x in t)
    if t[0] == 'E' and t[2] == 0 and not (type(t[1]) is tuple and t[1][0] == '&') and len(t) > 3:
        return ('D', t[1], t[3])
    if t[0] in ('+', '-', '*', '/', '%', '&', '|', '^', '==', '<') and len(t) == 3:
        return mk(*t)
    return t


def hit_any(t, keys):
    return type(t) is tuple and not keys.isdisjoint(mentions(t))


def _has(t, p):
    if type(t) is not tuple:
        return False
    if t and type(t[0]) is str and p(t):
        return True
    return any(_has(x, p) for x in t)


def _inctx(l, nctx):
    while True:
        if l[0] == 'L':
            c = l[2]
            return c == nctx or c.startswith(nctx + '/')
        if l[0] in ('F', 'E') and type(l[1]) is tuple and l[1][0] == '&':
            l = l[1][1]
            continue
        return False


_live = {}


def locals_live(f):
    """lids possibly read at or after each block entry (conservative: any mention)"""
    r = _live.get(f.fid)
    if r is not None:
        return r
    use = {}
    for b, x in f.blocks.items():
        u = set()
        ids = list(x['e'])
        if 'tc' in x: ids.append(x['tc'])
        for e in ids:
            for n in f.walk(e):
                if n['k'] == 'DeclRefExpr' and 'lid' in n:
                    u.add(n['lid'])
                if n['k'] == 'LambdaExpr':
                    for cp in n.get('caps', []):
                        if 'lid' in cp: u.add(cp['lid'])
        use[b] = u
    live = {b: set(u) for b, u in use.items()}
    ch = True
    while ch:
        ch = False
        for b, x in f.blocks.items():
            o = set(live[b])
            for s in x['s']:
                if s >= 0:
                    o |= live[s]
            if len(o) != len(live[b]):
                live[b] = o
                ch = True
    _live[f.fid] = live
    return live


def start(P, E, client, f, this=('this',)):
    """analyse f from an unconstrained entry state; -> (engine, exits)"""
    eng = Engine(P, E, client)
    st = State()
    if getattr(f, 'record', None) and not getattr(f, 'static', False):
        st.env[('', 'this')] = this
    for j, p in enumerate(f.params):
        if '&' in p['t']:
            st.env[('', p['lid'])] = ('ref', ('D', ('p', j, p['name'] if False else ''), p['t'].replace('&', '').strip()))
        else:
            st.store[('L', p['lid'], '')] = ('p', j, '')
    st.cl = client.initial() if hasattr(client, 'initial') else ()
    return eng, eng.run(f, st, '')


def pp(t):
    """readable form of a term"""
    if type(t) is not tuple:
        return str(t)
    if not t:
        return '()'
    h = t[0]
    try:
        if h == 'm': return pp(t[1]) + ('' if t[2] == 0 else "'")
        if h == 'F': return pp(t[1]) + '.' + t[2].split('::')[-1]
        if h == 'L': return 'local%s' % t[1]
        if h == 'E': return pp(t[1]) + '[' + pp(t[2]) + ']'
        if h == '&' and len(t) == 2: return '&' + pp(t[1])
        if h == 'p': return 'arg%d' % t[1]
        if h == 'this': return 'this'
        if h == 'D': return '*' + pp(t[1])
        if h == 'v': return 'v'
        if h in ('==', '<', '+', '-', '|', '^', '>>', '<<', '&') and len(t) == 3:
            return '(' + pp(t[1]) + ' ' + h + ' ' + pp(t[2]) + ')'
        if h == '!': return '!' + pp(t[1])
        if h in ('r', 'lv', 'u'): return '%s%s' % (h, '.'.join(str(x) for x in t[1:]))
        if h == 'call': return t[1].split('::')[-1] + '(' + ', '.join(pp(x) for x in t[2:] if not (type(x) is tuple and x[0] == 'v')) + ')'
        if type(h) is str: return h + '(' + ', '.join(pp(x) for x in t[1:]) + ')'
    except Exception:
        return repr(t)
    return '{' + ', '.join(pp(x) for x in t) + '}'
