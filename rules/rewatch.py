"""S04, S06: the watched literals of a clause already watched are chosen anew (fix_watched_literals)."""
import itertools
from rules.solver import *

TOP = 3


class Sim:
    """the function's guarded transitions, evaluated for a clause whose literals have given utilities"""

    def __init__(self, R, r, us):
        self.R, self.r, self.us = R, r, us
        self.cl = r.p(0)
        self.mem0 = [200 + 2 * i for i in range(len(us))]
        self.restart(())
        self.base = strip(('m', field(R, self.cl, 'lits'), 0))
        self.size = strip(csize(R, self.cl))

    def restart(self, plan):
        self.mem = list(self.mem0)
        self.hist = [[x] for x in self.mem0]
        self.seen, self.plan, self.taken = {}, plan, []

    def idx(self, x):
        return x - 1000 if x is not None and x >= 1000 else x

    def slot(self, loc, env):
        """position in the clause a location stands for"""
        if loc[0] == 'F' and str(loc[2]).endswith('Tlit::value'):
            return self.slot(loc[1], env) if type(loc[1]) is tuple and loc[1][0] in ('E', 'D', 'F') else self.idx(self.val(loc[1], env))
        if loc[0] == '&':
            return self.slot(loc[1], env)
        if loc[0] == 'E':
            if strip(loc[1]) != self.base:
                b = self.val(loc[1], env)
                k = self.val(loc[2], env)
                return None if b is None or k is None or b < 1000 else self.idx(b) + self.idx(k)
            return self.idx(self.val(loc[2], env))
        if loc[0] == 'D':
            x = self.val(loc[1], env)
            return self.idx(x) if x is not None and x >= 1000 else None
        return None

    def val(self, t, env):
        if type(t) in (int, bool):
            return int(t)
        if type(t) is not tuple or not t:
            return None
        if t in env:
            return env[t]
        if strip(t) == self.base:
            return 1000
        if strip(t) == self.size:
            return len(self.us)
        o = t[0]
        if o == 'iter':
            if strip(t[1]) != self.base:
                return None
            k = self.idx(self.val(t[2], env))
            return None if k is None else 1000 + k
        if o == 'obj' and len(t[2]) == 1:
            return self.val(t[2][0][1], env)
        if o == 'm':
            if t in self.seen:
                return self.seen[t]
            k = self.slot(t[1], env)
            if k is None or not 0 <= k < len(self.mem):
                return None
            if t[2] == 0:
                v = self.mem0[k]
            elif self.plan is None:
                return None
            else:
                # read at some moment before now: the latest value, or one overwritten since
                h = list(dict.fromkeys(reversed(self.hist[k])))
                n = len(self.taken)
                c = self.plan[n] if n < len(self.plan) else 0
                self.taken.append(len(h))
                v = h[min(c, len(h) - 1)]
            self.seen[t] = v
            return v
        if o == 'call':
            n = str(t[1]).rsplit('::', 1)[-1]
            if n == 'utility_heuristic':
                x = self.val(t[3], env)
                return self.us[self.mem0.index(x)] if x in self.mem0 else None
            if n == 'max_utility_heuristic':
                return TOP
            return None
        if o in ('<', '==', '+', '-', '^', '!', '*'):
            xs = [self.val(x, env) for x in t[1:]]
            return None if None in xs else evt((o,) + tuple(xs), {})
        return None

    def fits(self, st, env):
        """the path is possible: True / False / None (some test not evaluated)"""
        sure, self.plan = True, None
        for k, b in st.facts.items():
            self.seen = {}
            v = self.val(k, env)
            if v is None:
                sure = None
            elif bool(v) != b:
                return False
        return sure


def check(P, E, rep):
    R = Sol(P)
    for mode in ('CB', 'GB'):
        choose(P, E, R, rep, mode)


def choose(P, E, R, rep, mode):
    with rep.guard('watched literals chosen anew [%s]' % mode):
        r = Run(P, E, R, rep, 'fix_watched_literals', mode=mode, proof=False, tracker=False, observer=False, stats=False)
        j = J(rep, 'watched literals chosen anew [%s]' % mode, r.where)
        ONE, BEST, ALL = 'each watched literal has exactly one entry', 'the two best literals are watched, the best first', 'no literal of the clause is lost'
        lps = loops(r)
        if len(lps) != 1 or any(e[0] in ('w', 'call') and not (e[0] == 'w' and e[1][0] == 'L') for _, ev in lps[0].iters for e in ev):
            j(None, BEST, '%d loops, or a loop with effects' % len(lps))
            j.flush()
            return
        l = lps[0]
        vs = sorted(lvars(l))
        for n in (2, 3, 4):
            for us in itertools.product(range(1, TOP + 1), repeat=n):
                s = Sim(R, r, us)
                env, sure = {}, True
                for v in vs:
                    ini = {s.val(x, {}) for x in l.init(v)}
                    env[v] = ini.pop() if len(ini) == 1 else None
                if None in env.values():
                    j(None, BEST, lambda: 'initial values: %s' % {short(k): v for k, v in env.items()})
                    break
                for step in range(n + 3):
                    nxt = [(f, st) for f, st in ((s.fits(st, env), st) for st, _ in l.iters) if f is not False]
                    if not nxt:
                        break
                    if len(nxt) > 1 or nxt[0][0] is None:
                        sure = None
                        break
                    s.seen = {}
                    new = {v: s.val(l.next(nxt[0][1], v), env) for v in vs}
                    if None in new.values():
                        sure = None
                        break
                    env = new
                else:
                    sure = None
                outs = [(s.fits(st, env), st) for st, _ in r.outs]
                outs = [(f, st) for f, st in outs if f is not False] if sure else []
                if len(outs) != 1 or outs[0][0] is None:
                    j(None, BEST, 'utilities %s: %d ways on' % (us, len(outs)))
                    continue
                # every reading of the moments at which a value was taken; one that is right is enough
                todo, first, done = [()], None, 0
                while todo and done < 200:
                    plan = todo.pop(0)
                    s.restart(plan)
                    got = []
                    finish(lambda ok, rule, d='': got.append((ok, rule, d() if callable(d) else d)), R, s, outs[0][1], env, us, ONE, BEST, ALL)
                    done += 1
                    first = first or got
                    if all(ok is True for ok, _, _ in got):
                        first = got
                        break
                    todo += [plan + (0,) * (k - len(plan)) + (c,) for k in range(len(plan), len(s.taken)) for c in range(1, s.taken[k])]
                for ok, rule, d in first:
                    j(ok, rule, d)
        j.flush(ONE, BEST, ALL)


def finish(j, R, s, st, env, us, ONE, BEST, ALL):
    W = s.mem[:2]
    say = lambda: 'utilities %s: order %s, watched %s' % (us, [(x - 200) // 2 for x in s.mem], [(x - 200) // 2 for x in W])
    for e in st.cl[0]:
        if e[0] == 'w' and (e[1][0] in ('E', 'D') or e[1][0] == 'F' and str(e[1][2]).endswith('Tlit::value')):
            v, k = s.val(e[2], env), s.slot(e[1], env)
            if v is None or k is None or not 0 <= k < len(us):
                j(None, ALL, short(e))
                return
            s.mem[k] = v
            s.hist[k].append(v)
        elif e[0] == 'call' and e[1] in ('stop_watch', 'watch_lit'):
            x = s.val(e[2][0], env)
            if x is None or not eqs(e[2][1], s.cl):
                j(None, ONE, short(e))
                return
            if e[1] == 'stop_watch':
                if x not in W:
                    j(False, ONE, 'utilities %s: an entry is removed that is not there' % (us,))
                    return
                W.remove(x)
            else:
                W.append(x)
        elif e[0] not in ('L', 'w'):
            j(None, ONE, short(e))
            return
    j(sorted(s.mem) == s.mem0, ALL, say)
    j(sorted(W) == sorted(s.mem[:2]), ONE, say)
    u = [us[s.mem0.index(x)] if x in s.mem0 else 0 for x in s.mem]
    j(u[0] >= u[1] and all(u[1] >= x for x in u[2:]), BEST, say)
