"""L01: the restart sequence, as a transition contract of the counter (per path of increment and reset, and the initial values)."""
from nslib.spec import *

REC = 'napsat::luby_counter'
THIS = ('this',)


class LC(VecClient):
    peel = False

    def write(self, eng, st, loc, val, site):
        if loc[0] == 'F' and loc[1] == THIS:
            self.emit(st, 'w', loc, val)


def check(P, E, rep):
    r = P.records.get(REC)
    if r is None:
        raise AnalysisError('anchor vanished: ' + REC)
    fl = {f['name']: f for f in r['fields']}
    if not {'_count', '_order', '_next_power_of_two', 'skip'} <= set(fl):
        raise AnalysisError('anchor vanished: representation of ' + REC)
    if len(fl) != 4:
        rep.und('representation', 'src/utils/luby-counter.hpp', 'the counter keeps further state: %s' % sorted(fl))
        return
    C, O, N, S = [('F', THIS, REC + '::' + x) for x in ('_count', '_order', '_next_power_of_two', 'skip')]
    init = {C: 0, O: 1, N: 1, S: 1}
    with rep.guard('initial state'):
        for l, v in init.items():
            iv = fl[l[2].split('::')[-1]].get('iv')
            if iv is None:
                rep.und('initial state', 'src/utils/luby-counter.hpp', 'no constant initialiser for ' + l[2])
            else:
                iv = {'true': '1', 'false': '0'}.get(str(iv), str(iv))
                rep.check(iv == str(v) or (None if not iv.isdigit() else False), 'a new counter starts the sequence from the beginning', 'src/utils/luby-counter.hpp:%d' % fl[l[2].split('::')[-1]]['line'],
                          '%s starts at %s' % (l[2], iv))
    domain = [(c, o, 1 << k, s) for o in range(1, 31) for k in range(o + 1) for s in (0, 1) if not (s and k)
              for c in sorted({x for x in (0, 1, 2, (1 << k) // 2, (1 << k) - 2, (1 << k) - 1) if 0 <= x < (1 << k)})]

    def inc(rep, f, outs, eng):
        """the extracted transition, tabulated over the counter's abstract states (count below the interval, interval a power of two up to 2^order)"""
        w = f.where()
        for c, o, n, s in domain:
            env = {C: c, O: o, N: n, S: s}
            fired, wrap = c + 1 == n, n >> o == 0
            case = 'counting' if not fired else 'round complete' if not wrap else 'first step repeated' if s else 'doubling'
            if not fired:
                want, rv = {C: c + 1, O: o, N: n, S: s}, 0
            elif not wrap:
                want, rv = {C: 0, O: o + 1, N: 1, S: 1}, 1
            else:
                want, rv = {C: 0, O: o, N: n if s else 2 * n, S: 0}, 1
            taken = 0
            for st, ret in outs:
                g = [ev(k, env) for k in st.facts]
                if any(x is not None and bool(x) != v for x, v in zip(g, st.facts.values())):
                    continue
                taken += 1
                sure = None not in g
                def v(x):
                    x = ev(x, env)
                    return x if x is not None and sure else None
                got = v(ret)
                verdict(rep, case, 'a restart is due exactly when the interval is complete', w, got, rv, env)
                for l, t in want.items():
                    verdict(rep, case, l[2].split('::')[-1] + ' afterwards', w, v(eng.read(st, l)), t, env)
            if not taken:
                rep.und('transition [%s]' % case, w, 'no path for %s' % (env,))

    def verdict(rep, case, rule, w, got, want, env):
        k = (case, rule)
        s = UND if got is None else OK if int(got) == int(want) else BAD
        if k not in vs or (OK, UND, BAD).index(s) > (OK, UND, BAD).index(vs[k][0]):
            vs[k] = (s, w, '' if s == OK else 'gives %s, expected %s, from count=%d order=%d interval=%d repeat=%d' % (got, want, env[C], env[O], env[N], env[S]))
    vs = {}
    fs = P.fn(REC + '::increment')
    if not fs:
        raise AnalysisError('anchor vanished: %s::increment' % REC)
    for f in fs:
        with rep.guard('increment'):
            eng, outs = analyse(P, E, LC(), f)
            rep.engine(eng)
            inc(rep, f, outs, eng)
    for (case, rule), (s, w, d) in sorted(vs.items()):
        rep.add('%s [%s]' % (rule, case), w, s, d)
    fs = P.fn(REC + '::reset')
    if not fs:
        raise AnalysisError('anchor vanished: %s::reset' % REC)
    for f in fs:
        with rep.guard('reset'):
            eng, outs = analyse(P, E, LC(), f)
            rep.engine(eng)
            for st, ret in outs:
                for l, v in init.items():
                    x = eng.read(st, l)
                    rep.check(x == v or (None if is_unknown(x) else False), 'reset restores the beginning of the sequence', f.where(), '%s becomes %s' % (l[2], pp(x) if type(x) is tuple else x))


def ev(t, env):
    """value of a term under an assignment of the fields (32-bit unsigned); None: not evaluable"""
    if type(t) in (int, bool):
        return int(t)
    if type(t) is not tuple:
        return None
    if t[0] == 'm':
        return env.get(t[1])
    xs = [ev(x, env) for x in t[1:]]
    if None in xs:
        return None
    M = 0xFFFFFFFF
    try:
        if t[0] == '+':
            return sum(xs) & M
        if t[0] == '-' and len(xs) == 2:
            return (xs[0] - xs[1]) & M
        if t[0] == '*':
            r = 1
            for x in xs:
                r *= x
            return r & M
        if t[0] == '&':
            return xs[0] & xs[1]
        if t[0] == '|':
            return xs[0] | xs[1]
        if t[0] == '<<':
            return (xs[0] << xs[1]) & M if xs[1] < 32 else None
        if t[0] == '>>':
            return xs[0] >> xs[1] if xs[1] < 32 else None
        if t[0] == '==':
            return int(xs[0] == xs[1])
        if t[0] == '<':
            return int(xs[0] < xs[1])
        if t[0] == 'ite' and len(xs) == 3:
            return xs[1] if xs[0] else xs[2]
        if t[0] in ('!', 'not') and len(xs) == 1:
            return int(not xs[0])
        if t[0] == '&&':
            return int(bool(xs[0] and xs[1]))
        if t[0] == '||':
            return int(bool(xs[0] or xs[1]))
        if t[0] == '?:' and len(xs) == 3:
            return xs[1] if xs[0] else xs[2]
        if t[0] == 'max':
            return max(xs)
        if t[0] == 'min':
            return min(xs)
        if t[0] == '~' and len(xs) == 1:
            return ~xs[0] & M
    except (ValueError, OverflowError):
        pass
    return None
