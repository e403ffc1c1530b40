"""Whole-program effect rules: what checking, reporting, recording and asking may write (X01, X03), and what a run may depend on (X02)."""
from collections import Counter
from nslib import ir
from nslib.purity import Purity

PROBES = ('ASSERT', 'assert', 'NOTIFY', 'NOTIFY_WATCH', 'NOTIFY_STAT', 'NOTIFY_STAT_N', 'LOG_ERROR', 'LOG_WARNING', 'LOG_INFO')
CTRL = ('ReturnStmt', 'BreakStmt', 'ContinueStmt', 'GotoStmt', 'CXXThrowExpr')
STAT = 'napsat::statistics'
TMP = 'napsat::proof::resolution_proof::tmp_lits'


def inprobe(n):
    return any(m.split('/')[0] in PROBES for m in n.get('mac', []))


def outermost(n):
    ms = [m.split('/')[0] for m in n.get('mac', [])]
    return [m for m in ms if m in PROBES][-1]


def parents(f):
    p = getattr(f, '_par', None)
    if p is None:
        p = {}
        for n in f.nodes.values():
            for c in n.get('c', []):
                p.setdefault(c, n['i'])
        f._par = p
    return p


def up(f, i):
    """closest node that is not a cast or parenthesis"""
    par = parents(f)
    while i in par:
        i = par[i]
        n = f.nodes[i]
        if not ('ck' in n or n['k'] in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr')):
            return n
    return None


def desc(f, x):
    r, w = x
    w = w.replace('napsat::', '').replace('NapSAT::', '').replace('(anonymous struct)::', '')
    return w if r[0] in ('var', 'this', 'p', 'cap') else '%s (through %s)' % (w, str(r[1] if len(r) > 1 else r[0]).split('::')[-1])


def quiet(x):
    """writes that are the business of statistics alone"""
    r, w = x
    return w.startswith(STAT + '::') or r[0] == 'G' and r[1] in ('std::cout', 'std::cerr', 'std::clog')


class Scratch:
    """fields every function empties before reading: what they held is never seen again"""

    def __init__(self, P, Q):
        self.P, self.Q, self.memo = P, Q, {}

    def names(self, f, n, g):
        """the node names the storage g: a qualified name, or ('lid', l) for a variable of f; local references to it count"""
        if n['k'] not in ('MemberExpr', 'DeclRefExpr'):
            return False
        if isinstance(g, tuple):
            if n['k'] == 'DeclRefExpr' and n.get('lid') == g[1] and n.get('dk') in ('local', 'param'):
                return True
        elif named(f, n, g):
            return True
        return n['k'] == 'DeclRefExpr' and n.get('dk') == 'local' and n.get('lid') in self.refs(f, g)

    def refs(self, f, g):
        key = ('refs', f.fid, g)
        if key not in self.memo:
            self.memo[key] = set()
            for n in f.nodes.values():
                for v in n.get('vars', []) if n['k'] == 'DeclStmt' else []:
                    i = v.get('init', -1)
                    if not (v.get('ref') or v['vt'].endswith('&')) or i < 0:
                        continue
                    m = f.nodes[i]
                    while ('ck' in m or m['k'] == 'ParenExpr') and m.get('c'):
                        m = f.nodes[m['c'][0]]
                    if self.names(f, m, g):
                        self.memo[key].add(v['lid'])
        return self.memo[key]

    def touch(self, f, n, g):
        """what a node does to the storage g: 'kill', 'use' or None"""
        if self.names(f, n, g):
            u = up(f, n['i'])
            if u is not None:
                c = u.get('c', [])
                if u['k'] == 'DeclStmt' and any(v['lid'] in self.refs(f, g) for v in u['vars']):
                    return None
                if u['k'] == 'MemberExpr' and u.get('dk') == 'func' and u['name'] in ('clear', 'assign'):
                    return 'kill'
                if u['k'] == 'CXXMemberCallExpr' and u.get('qn', '').split('::')[-1] in ('clear', 'assign'):
                    return 'kill'
                if u['k'] in ('BinaryOperator', 'CXXOperatorCallExpr') and (u.get('op') == '=' or u.get('qn', '').endswith('operator=')) and c and n['i'] in {m['i'] for m in f.walk(c[0])} | {c[0]}:
                    return 'kill'
                h = self.P.funcs.get(u.get('fid'))
                if h is not None and u['k'] == 'CallExpr':
                    r = None
                    for x, q in zip(c, h.params):
                        if n['i'] in {m['i'] for m in f.walk(x)} | {x}:
                            if not q['t'].endswith('&'):
                                return 'use'
                            r = self.first(h, ('lid', q['lid'])) or r
                    return r
            return 'use'
        h = n.get('fid')
        if h in self.P.funcs and n['k'] not in ('DeclRefExpr', 'MemberExpr') and h != f.fid and not isinstance(g, tuple):
            return self.first(self.P.funcs[h], g)
        return None

    def first(self, f, g):
        """'use' if some path reads g before emptying it, 'kill' if every path empties it first, None otherwise"""
        key = (f.fid, g)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        if not any(self.names(f, m, g) or m.get('fid') in self.P.funcs for m in f.nodes.values()):
            return None
        seen, todo, ans = set(), [f.entry], []
        while todo:
            b = todo.pop()
            if b in seen or b not in f.blocks:
                continue
            seen.add(b)
            B = f.blocks[b]
            for e in B['e']:
                n = f.nodes.get(e) if isinstance(e, int) else None
                t = self.touch(f, n, g) if n is not None else None
                if t:
                    ans.append(t)
                    break
            else:
                nx = [s for s in B['s'] if s is not None and s >= 0]
                if not nx:
                    ans.append('none')
                todo.extend(nx)
        r = 'use' if 'use' in ans else 'kill' if ans and 'none' not in ans else None
        self.memo[key] = r
        return r


def named(f, n, g):
    return n['k'] in ('MemberExpr', 'DeclRefExpr') and (n.get('qn') == g or n.get('dk') == 'slocal' and f.qn + '::' + n['name'] == g)


def region(f, i, extra=()):
    out = {i} | {m['i'] for m in f.walk(i)}
    return out


def writes(Q, f, nodes, allow=lambda x: False):
    """writes of these nodes to anything not declared among them"""
    own = set()
    for i in nodes:
        n = f.nodes[i]
        if n['k'] == 'DeclStmt':
            own |= {v['name'] for v in n.get('vars', [])}
    out = []
    for i in nodes:
        n = f.nodes[i]
        for x in Q.effects(f, n, Q.pts[f.fid]):
            if quiet(x) or allow(x) or x[0][0] == 'var' and x[0][1] in own:
                continue
            out.append((n, x))
    return out


def where(f, n):
    return '%s:%s' % (f.where().rsplit(':', 1)[0], n['l'])


def nm(f):
    return f.qn.replace('napsat::', '')


def observe(P, E, rep):
    D = ir.load(None, debug=True)
    Q, QR = Purity(D), Purity(P)
    S = Scratch(D, Q)
    rep.funcs |= {f.qn for f in D.funcs.values()}

    # scratch storage of the checkers
    scr = set()
    for qn in (TMP,):
        bad = [f for f in D.funcs.values() if any(m.get('qn') == qn and m['k'] == 'MemberExpr' for m in f.nodes.values()) and S.first(f, qn) == 'use']
        if any(m.get('qn') == qn for f in D.funcs.values() for m in f.nodes.values()):
            for f in bad:
                rep.bad('scratch', where(f, f.nodes[f.body]), '%s reads %s before emptying it: the internal checks leave their own data there' % (nm(f), qn.split('::')[-1]))
            if not bad:
                scr.add(qn)
                rep.ok('scratch', qn)
    allow = lambda x: x[1] in scr

    # every expansion of a check or report
    for f in D.funcs.values():
        sites = {}
        for n in f.nodes.values():
            if inprobe(n):
                sites.setdefault((outermost(n), n['l']), set()).add(n['i'])
        for (m, l), ns in sorted(sites.items()):
            rep.sites += 1
            w = writes(Q, f, ns, allow)
            for n, x in w:
                rep.bad('probe', where(f, n), '%s in %s changes %s: the solver behaves differently when this check or report is off' % (m, nm(f), desc(f, x)))
            for i in ns:
                n = f.nodes[i]
                if n['k'] in CTRL and not getattr(f, 'lambda', False) and any(a.endswith('/arg') and a.split('/')[0] in PROBES for a in n['mac']):
                    fn = n
                    rep.bad('probe', where(f, fn), '%s in %s leaves the code it reports on' % (m, nm(f)))
            if not w:
                rep.ok('probe', '%s:%s' % (f.where().rsplit(':', 1)[0], l))

    # code that only a build with checks has
    for fid, f in D.funcs.items():
        g = P.funcs.get(fid)
        if g is None:
            continue

        def key(Qx, h):
            c = Counter()
            at = {}
            for n in h.nodes.values():
                if inprobe(n):
                    continue
                if n['k'] in CTRL:
                    k = (n['k'], '')
                else:
                    ef = Qx.effects(h, n, Qx.pts[h.fid])
                    if not ef:
                        continue
                    k = (n['k'], n.get('qn') or n.get('op') or '', tuple(sorted({x[1] for x in ef})) if n.get('fid') not in Qx.W else ())
                c[k] += 1
                at.setdefault(k, []).append(n)
            return c, at
        a, at = key(Q, f)
        b, bt = key(QR, g)
        if getattr(f, 'lambda', False) and fid.split('#')[-1].isdigit() and a != b and not b:
            continue
        dn = lambda h: Counter(v['name'] for n in h.nodes.values() if n['k'] == 'DeclStmt' for v in n.get('vars', []))
        more = set(dn(f) - dn(g))
        for k in a:
            if a[k] <= b[k]:
                continue
            other = {n['l'] for n in bt.get(k, [])}
            for n in at[k]:
                if n['l'] in other:
                    continue
                if n['k'] in CTRL:
                    rep.bad('checked build', where(f, n), '%s leaves here only in builds with the internal checks' % nm(f))
                    continue
                for x in sorted(Q.effects(f, n, Q.pts[f.fid])):
                    if quiet(x) or allow(x) or x[0][0] == 'var' and x[0][1] in more:
                        continue
                    rep.bad('checked build', where(f, n), '%s changes %s only in builds with the internal checks' % (nm(f), desc(f, x)))
        rep.ok('checked build', f.where())

    # presence of an observer or of statistics decides nothing else
    R = P
    isg = lambda t: t.replace('const', '').strip().startswith(('sentinel::SATSentinel', 'napsat::statistics *', 'napsat::statistics*')) and '*' in t
    allowg = lambda x: x[1] in scr or 'sentinel' in x[1] or x[0][0] == 'F' and ('_sentinel' in str(x[0]) or '_statistics' in str(x[0])) or x[0][0] == 'G' and outputonly(R, QR, x[0][1], OUTR)
    OUTR = {}
    presence(R, QR, isg, ('interactive',), allowg, rep, 'presence', 'an observer or statistics is attached', lambda f: f.qn.startswith((STAT + '::', 'sentinel::')))
    for f in R.funcs.values():
        if f.qn.startswith(STAT + '::'):
            continue
        # statistics are never read back
        for n in f.nodes.values():
            if n['k'] == 'MemberExpr' and n.get('dk') == 'field' and n.get('qn', '').startswith(STAT + '::'):
                rep.bad('presence', where(f, n), '%s reads the statistic %s' % (nm(f), n['name']))

    # asking
    API = ('variables_count', 'get_status', 'get_partial_assignment', 'is_decided', 'is_root_level', 'print_statistics', 'unsat_core', 'get_variable_value')
    OUT = {}
    for f in D.funcs.values():
        api = f.file.endswith('SAT-API.cpp') and f.name in API
        own = f.file.endswith('SAT-API.cpp') and f.name in ('check_proof', 'print_proof', 'clause_unsat_core')
        if not (getattr(f, 'const', False) and not getattr(f, 'lambda', False) or api or own):
            continue
        rep.sites += 1
        bad = []
        for x in sorted(Q.W[f.fid]):
            r, w = x
            if quiet(x) or r[0] == 'p' and not api and not own or w in scr or x[0][0] == 'cap':
                continue
            if own and (w.startswith('napsat::proof::') and w.endswith('::marked') or f.name == 'clause_unsat_core' and w == 'napsat::NapSAT::TSvar::marked'):
                continue
            if r[0] == 'G' and outputonly(D, Q, r[1], OUT):
                continue
            bad.append(x)
        for x in bad:
            rep.bad('query', f.where(), '%s only reports, but changes %s' % (nm(f), desc(f, x)))
        if not bad:
            rep.ok('query', f.where())


def outputonly(D, Q, g, memo):
    """a global that only shapes printed text: the functions reading it write nothing else than such globals, and return nothing"""
    if g in memo:
        return memo[g]
    memo[g] = True
    for f in D.funcs.values():
        if any(named(f, n, g) for n in f.nodes.values()):
            if f.ret != 'void' or any(not (quiet(x) or x[0][0] == 'G' and outputonly(D, Q, x[0][1], memo)) for x in Q.W[f.fid]):
                memo[g] = False
    return memo[g]


def presence(P, Q, isg, but, allow, rep, rule, what, skip, follow=True):
    """nothing but allow is decided by whether the optional parts of these types are there"""
    ptr = lambda n: n['k'] == 'MemberExpr' and n.get('dk') == 'field' and n.get('t') and isg(n['t'])
    # options read where such a part is created
    opts = set()
    for f in P.funcs.values():
        if f.kind != 'ctor':
            continue
        for n in f.nodes.values():
            if not ptr(n):
                continue
            u = up(f, n['i'])
            if u is None or u['k'] != 'BinaryOperator' or u['op'] != '=' or n['i'] not in {m['i'] for m in f.walk(u['c'][0])} | {u['c'][0]}:
                continue
            conds = [m['c'][0] for m in f.walk(u['c'][1]) if m['k'] == 'ConditionalOperator']
            if f.nodes[u['c'][1]]['k'] == 'ConditionalOperator':
                conds.append(f.nodes[u['c'][1]]['c'][0])
            par = parents(f)
            i = u['i']
            while i in par:
                c, i = i, par[i]
                if f.nodes[i]['k'] == 'IfStmt' and f.nodes[i]['cond'] != c:
                    conds.append(f.nodes[i]['cond'])
            for c in conds:
                for m in [f.nodes[c]] + list(f.walk(c)):
                    if m['k'] == 'MemberExpr' and m.get('dk') == 'field' and 'options' in m.get('qn', '') and m['name'] not in but:
                        opts.add(m['qn'])
    tests, done = set(), set()
    todo = [f for f in P.funcs.values()]
    while todo:
        f = todo.pop(0)
        o = Q.cap.get(f.fid)
        if f.kind in ('ctor', 'dtor') or skip(f) or o and P.funcs[o[0]].kind == 'ctor':
            continue
        for n in list(f.nodes.values()):
            if (f.fid, n['i']) in done or inprobe(n):
                continue
            call = n['k'] in ('CallExpr', 'CXXMemberCallExpr') and n.get('fid') in tests
            if not (ptr(n) or call or n['k'] == 'MemberExpr' and n.get('qn') in opts and f.qn.startswith('napsat::NapSAT::')):
                continue
            done.add((f.fid, n['i']))
            rep.sites += 1
            if guarded(Q, f, n, allow, rep, rule, what) and follow and f.ret == 'bool' and f.fid not in tests and not writesany(Q, f, allow):
                tests.add(f.fid)
                todo += [g for g in P.funcs.values() if any(m.get('fid') == f.fid for m in g.nodes.values())]


def writesany(Q, f, allow):
    return any(not quiet(x) and not allow(x) for x in Q.W[f.fid])


def guarded(Q, f, n, allow, rep, rule, what, depth=0):
    """what a test of the pointer n (in f) decides must be within allow; True if the test is returned"""
    i = n['i']
    u = up(f, i)
    ret = False
    while u is not None and (u['k'] == 'UnaryOperator' and u['op'] == '!' or u['k'] == 'BinaryOperator' and u['op'] in ('&&', '||', '==', '!=')):
        if u['k'] == 'BinaryOperator' and u['op'] in ('&&', '||'):
            # a part of the condition that is only evaluated on one outcome
            bad = [y for y in writes(Q, f, [j for j in region(f, u['c'][1]) if not inprobe(f.nodes[j])], allow) if inside(f, u['c'][0], i)]
            for m, x in bad:
                rep.bad(rule, where(f, m), '%s changes %s only when %s' % (nm(f), desc(f, x), what))
            if bad:
                return False
        i = u['i']
        u = up(f, i)
    w = where(f, n)
    if u is None:
        rep.und(rule, w, 'use of %s not understood' % n.get('name', n.get('qn')))
        return False
    k = u['k']
    if k == 'IfStmt' and inside(f, u['cond'], i):
        if rule == 'presence' and any(f.nodes[j].get('qn', '').endswith('::set_variable_alias') for j in region(f, u['then'])):
            alias(Q, f, u, rep, w)
            return False
        ns = region(f, u['then']) | (region(f, u['else']) if u.get('else', -1) >= 0 else set())
        bad = writes(Q, f, [j for j in ns if not inprobe(f.nodes[j])], allow)
        esc = [f.nodes[j] for j in ns if f.nodes[j]['k'] in CTRL and not inprobe(f.nodes[j])]
        esc = [e for e in esc if e['k'] in ('ReturnStmt', 'GotoStmt', 'CXXThrowExpr') or not inloop(f, e, ns)]
        if esc and not bad:
            rest = [x for x in Q.W[f.fid] if not quiet(x) and not allow(x)]
            if f.ret != 'void' and any(e['k'] == 'ReturnStmt' for e in esc) and not getattr(f, 'const', False) or rest:
                rep.bad(rule, where(f, esc[0]), '%s leaves early depending on whether %s' % (nm(f), what))
                return False
        for m, x in bad:
            rep.bad(rule, where(f, m), '%s changes %s only when %s' % (nm(f), desc(f, x), what))
        if not bad:
            rep.ok(rule, w)
        return any(e['k'] == 'ReturnStmt' for e in esc)
    if k == 'ReturnStmt':
        rep.ok(rule, w)
        return True
    if k == 'DeclStmt' and depth < 5:
        vs = [v for v in u['vars'] if v.get('init', -1) >= 0 and inside(f, v['init'], i)]
        if len(vs) == 1 and vs[0]['vt'].replace('const', '').strip() == 'bool':
            for m in list(f.nodes.values()):
                if m['k'] == 'DeclRefExpr' and m.get('lid') == vs[0]['lid'] and not inprobe(m):
                    ret = guarded(Q, f, m, allow, rep, rule, what, depth + 1) or ret
            return ret
        if len(vs) == 1 and '*' in vs[0]['vt']:
            for m in list(f.nodes.values()):
                if m['k'] == 'DeclRefExpr' and m.get('lid') == vs[0]['lid'] and not inprobe(m):
                    ret = guarded(Q, f, m, allow, rep, rule, what, depth + 1) or ret
            return ret
    if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr', 'MemberExpr', 'CXXDeleteExpr', 'CompoundStmt'):
        rep.ok(rule, w)
        return False
    if k in ('ConditionalOperator', 'WhileStmt', 'ForStmt', 'DoStmt', 'SwitchStmt', 'DeclStmt') or k == 'BinaryOperator':
        rep.bad(rule, w, '%s computes with whether %s' % (nm(f), what))
        return False
    rep.und(rule, w, 'use of %s in %s not understood' % (n.get('name', n.get('qn')), k))
    return False


def inside(f, root, i):
    return root is not None and root >= 0 and (root == i or any(m['i'] == i for m in f.walk(root)))


def alias(Q, f, u, rep, w):
    """names of variables in comments are meant for observers: they may declare the variable they name, and nothing else"""
    ns = region(f, u['then'])
    reads = Counter(n['name'] for n in f.nodes.values() if n['k'] == 'DeclRefExpr' and n.get('dk') in ('local', 'param'))
    here = Counter(f.nodes[j]['name'] for j in ns if f.nodes[j]['k'] == 'DeclRefExpr' and f.nodes[j].get('dk') in ('local', 'param'))
    bad = [(n, x) for n, x in writes(Q, f, [j for j in ns if not inprobe(f.nodes[j])]) if not n.get('qn', '').endswith(('::var_allocate', '::new_variable')) and not (x[0][0] == 'var' and reads[x[0][1]] == here[x[0][1]])
           and 'sentinel' not in x[1]]
    for n, x in bad:
        rep.bad('presence', where(f, n), '%s changes %s only when an observer is attached' % (nm(f), desc(f, x)))
    if not bad:
        rep.ok('presence', w)


def inloop(f, e, ns):
    """break/continue stays within a loop or switch of the region"""
    par = parents(f)
    i = e['i']
    while i in par:
        i = par[i]
        if i not in ns:
            return False
        if f.nodes[i]['k'] in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'SwitchStmt'):
            return True
    return False


def recording(P, E, rep):
    """a proof or dependency record only watches: nothing but the record depends on whether it is kept"""
    Q = Purity(P)
    rep.funcs |= {f.qn for f in P.funcs.values()}
    # marks are taken back by the walk that sets them (P02)
    allow = lambda x: x[1].startswith('napsat::proof::') or x[1] == 'napsat::NapSAT::TSvar::marked' or x[0] in (('F', 'napsat::NapSAT::_proof'), ('F', 'napsat::NapSAT::_dependency_tracker'))

    isg = lambda t: '*' in t and ('proof::resolution_proof' in t or 'proof::dependency_tracker' in t)
    own = lambda f: f.qn.startswith('napsat::proof::')
    presence(P, Q, lambda t: isg(t) and 'resolution_proof' in t, (), allow, rep, 'record', 'a proof is kept', own)
    # input clauses stay when dependencies are kept: functions may answer differently then
    presence(P, Q, lambda t: isg(t) and 'dependency_tracker' in t, (), allow, rep, 'record', 'dependencies are kept', own, follow=False)


RANDOM = ('rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'rand_r', 'time', 'clock', 'gettimeofday', 'clock_gettime', 'getpid', 'getrusage', 'random_device', 'get_id', 'random_shuffle', 'secure_getenv', 'getenv', 'sbrk', 'rdtsc', '__rdtsc',
          '__builtin_ia32_rdtsc', 'arc4random', 'getentropy', 'tmpnam')
ENVF = 'napsat::env::'


def const_type(t):
    return t.startswith('const ') and not t.endswith('*') or t.endswith('const')


def isclock(n):
    q = n.get('qn', '')
    return n['k'] in ('CallExpr', 'CXXMemberCallExpr') and q.startswith('std::chrono') and q.endswith('::now')


def dependence(P, E, rep):
    Q = Purity(P)
    S = Scratch(P, Q)
    rep.funcs |= {f.qn for f in P.funcs.values()}
    src = {fid: f for fid, f in P.funcs.items() if not f.file.endswith('main.cpp')}

    # sources of chance
    for f in src.values():
        bad = []
        for n in f.nodes.values():
            q = n.get('qn', '') if n['k'] in ('CallExpr', 'CXXMemberCallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXOperatorCallExpr') else ''
            last = q.split('::')[-1]
            if q and not q.startswith('napsat') and (last in RANDOM and n.get('fid') not in P.funcs or 'random_device' in q) and not inprobe(n):
                bad.append((n, 'calls %s' % q))
            if n.get('ck') == 'PointerToIntegral' and not inprobe(n):
                bad.append((n, 'turns an address into a number'))
            if n['k'] == 'CXXForRangeStmt':
                t = (f.nodes.get(n.get('range')) or {}).get('t', '')
                if ('unordered_' in t or ordered_by_address(t)) and orderly(Q, f, n):
                    bad.append((n, 'goes through %s, whose order depends on addresses or hashing' % t[:60]))
            if n['k'] == 'DeclStmt':
                for v in n.get('vars', []):
                    if ordered_by_address(v['vt']) and iterated(f, v):
                        bad.append((n, 'goes through %s, whose order depends on addresses' % v['name']))
        for n, why in bad:
            rep.bad('chance', where(f, n), '%s %s: two runs on the same input may differ' % (nm(f), why))
        if not bad:
            rep.ok('chance', f.where())

    # clock values
    tainted = {}
    retc = set()
    ch = True
    while ch:
        ch = False
        for fid, f in src.items():
            tv = tainted.setdefault(fid, set())
            for n in f.nodes.values():
                if n['k'] == 'DeclStmt':
                    for v in n.get('vars', []):
                        if v.get('init', -1) >= 0 and v['lid'] not in tv and clocky(f, v['init'], tv, retc):
                            tv.add(v['lid'])
                            ch = True
                elif n['k'] == 'ReturnStmt' and n['c'] and fid not in retc and clocky(f, n['c'][0], tv, retc) and not f.ret.startswith('std::basic_string'):
                    retc.add(fid)
                    ch = True
    for fid, f in src.items():
        tv = tainted[fid]
        for n in f.nodes.values():
            if not (isclock(n) or n.get('fid') in retc and n['k'] not in ('DeclRefExpr', 'MemberExpr') or n['k'] == 'DeclRefExpr' and n.get('lid') in tv and n.get('dk') in ('local', 'param')):
                continue
            if inprobe(n):
                continue
            rep.sites += 1
            v = clockuse(f, n)
            if v:
                rep.bad('clock', where(f, n), '%s %s: the result depends on how fast the machine is' % (nm(f), v))
            else:
                rep.ok('clock', where(f, n))

    # storage that outlives a solver
    glob = {}
    for f in src.values():
        for n in f.nodes.values():
            if n['k'] == 'DeclRefExpr' and n.get('dk') == 'global' and n.get('qn') and not n['qn'].startswith('std::') and not const_type(n.get('t', '')) or n['k'] == 'MemberExpr' and n.get('dk') == 'static':
                glob.setdefault(n['qn'], set()).add(f.fid)
            if n['k'] == 'DeclStmt':
                for v in n.get('vars', []):
                    if v.get('static'):
                        glob.setdefault(f.qn + '::' + v['name'], set()).add(f.fid)
                        if v.get('init', -1) >= 0 and not f.qn.startswith(ENVF):
                            for j in [v['init']] + [m['i'] for m in f.walk(v['init'])]:
                                m = f.nodes[j]
                                if m['k'] == 'CXXThisExpr' or m['k'] == 'DeclRefExpr' and m.get('dk') in ('local', 'param', 'binding') or m['k'] in ('CallExpr', 'CXXMemberCallExpr') and m.get('fid') in P.funcs and Q.W[m['fid']]:
                                    rep.bad('shared', where(f, n), '%s keeps %s from the first solver and call that come here' % (nm(f), v['name']))
                                    break
    W = {}
    for fid, f in src.items():
        for n in f.nodes.values():
            for r, x in Q.effects(f, n, Q.pts[fid]):
                if r[0] == 'G':
                    W.setdefault(r[1], []).append((f, n))
    OUT = {}
    for g, users in sorted(glob.items()):
        ws = W.get(g, [])
        ws = [(f, n) for f, n in ws if not f.qn.startswith(ENVF)]
        if not ws:
            rep.ok('shared', g)
            continue
        name = g.split('::')[-1]
        readers = [src[u] for u in users if reads(src[u], g)]
        if not readers:
            rep.ok('shared', g, 'never read')
            continue
        if outputonly(P, Q, g, OUT):
            rep.ok('shared', g, 'shapes printed text only')
            continue
        bad = [f for f in readers if S.first(f, g) == 'use']
        for f in bad:
            rep.bad('shared', where(f, ws[0][1]) if f is ws[0][0] else f.where(), '%s reads %s, which keeps its value from earlier calls and other solvers' % (nm(f), name))
        if not bad:
            rep.ok('shared', g, 'emptied before it is read')

    # nothing starts undefined
    for qn, r in sorted(P.records.items()):
        if not qn.startswith(('napsat', 'bitset')) or 'Option' in qn:
            continue
        ctors = [f for f in src.values() if f.kind == 'ctor' and f.record == qn]
        plain = [x for x in r.get('fields', []) if not x['init'] and scalar(x['t'], P)]
        for f in ctors:
            w = {x for rr, x in Q.W[f.fid] if rr == ('this',)} | {it.get('field') for it in getattr(f, 'inits', []) or []}
            w = {str(x).split('::')[-1] for x in w}
            if len(f.params) == 1 and qn.split('::')[-1] in f.params[0]['t'] and '&' in f.params[0]['t'] or any(not it.get('field') for it in getattr(f, 'inits', []) or []):
                continue
            miss = [x['name'] for x in plain if x['name'] not in w]
            for m in miss:
                rep.bad('undefined', f.where(), 'a new %s has %s undefined' % (qn.replace('napsat::', ''), m))
            if not miss:
                rep.ok('undefined', f.where())
    for f in src.values():
        unset(f, rep)


def orderly(Q, f, n):
    """the order in which the elements come matters to this loop"""
    for m in f.walk(n['body']):
        if inprobe(m):
            continue
        if m['k'] in ('BreakStmt', 'ReturnStmt') or m.get('qn', '').split('::')[-1] in ('push_back', 'emplace_back', 'append', 'operator<<', 'operator+=', 'push') or m['k'] == 'CompoundAssignOperator':
            return True
        if m.get('fid') in Q.W and m['k'] not in ('DeclRefExpr', 'MemberExpr') and any(r in (('this',),) or r[0] == 'F' for r, x in Q.effects(f, m, Q.pts[f.fid])):
            return True
        if m['k'] == 'BinaryOperator' and m['op'] == '=' and f.nodes[m['c'][0]]['k'] == 'DeclRefExpr' and f.nodes[m['c'][0]].get('dk') == 'local':
            return True
    return False


def scalar(t, P):
    t = t.replace('const ', '')
    return t.endswith('*') or t in ('bool', 'int', 'unsigned int', 'unsigned long', 'long', 'double', 'float', 'char', 'unsigned char', 'short', 'unsigned short', 'long long', 'unsigned long long') or t in P.enums


def ordered_by_address(t):
    for c in ('std::set<', 'std::map<', 'std::multiset<', 'std::multimap<', 'std::priority_queue<'):
        i = t.find(c)
        if i >= 0:
            k = t[i + len(c):].split(',')[0].split('>')[0].strip()
            if k.endswith('*'):
                return True
    return False


def iterated(f, v):
    for n in f.nodes.values():
        if n['k'] == 'DeclRefExpr' and n.get('lid') == v['lid']:
            u = up(f, n['i'])
            if u is not None and (u['k'] in ('CXXForRangeStmt', 'DeclStmt') or u.get('qn', '').split('::')[-1] in ('begin', 'cbegin', 'rbegin', 'top')):
                return True
    return False


def clocky(f, i, tv, retc):
    for j in [i] + [m['i'] for m in f.walk(i)]:
        n = f.nodes.get(j)
        if n is not None and (isclock(n) or n['k'] == 'DeclRefExpr' and n.get('lid') in tv or n.get('fid') in retc and n['k'] not in ('DeclRefExpr', 'MemberExpr')):
            return True
    return False


def clockuse(f, n):
    """None if this use of a clock value only measures or prints; otherwise what it does"""
    par = parents(f)
    i = n['i']
    u = n
    while i in par:
        c, i = i, par[i]
        u = f.nodes[i]
        k = u['k']
        if inprobe(u):
            return None
        if k in ('DeclStmt', 'ReturnStmt', 'CompoundStmt'):
            return None
        if k in ('IfStmt', 'WhileStmt', 'ForStmt', 'DoStmt', 'SwitchStmt', 'ConditionalOperator', 'CXXForRangeStmt'):
            if k == 'ConditionalOperator' and u['c'][0] != c:
                continue
            if k == 'IfStmt' and u.get('cond') != c:
                return None
            return 'decides with a clock value'
        if k in ('BinaryOperator', 'CompoundAssignOperator') and u['op'].endswith('=') and u['op'] not in ('==', '!=', '<=', '>='):
            t = f.nodes.get(u['c'][0], {})
            if t.get('qn', '').startswith(STAT) or t.get('dk') == 'local':
                return None
            if c == u['c'][0]:
                continue
            return 'stores a clock value in %s' % t.get('name', '?')
        if k == 'CXXOperatorCallExpr':
            q = u.get('qn', '')
            if q.endswith('operator<<'):
                return None
            if q.endswith('operator='):
                t = f.nodes.get(u['c'][0], {})
                if t.get('dk') == 'field' and not t.get('qn', '').startswith(STAT):
                    return 'stores a clock value in %s' % t.get('name', '?')
                return None
        if k in ('CallExpr', 'CXXMemberCallExpr'):
            q = u.get('qn', '')
            if q.startswith((STAT, 'napsat::pretty_time')):
                return None
            if q.startswith('napsat') and not (k == 'CXXMemberCallExpr' and u['c'][0] == c):
                return 'passes a clock value to %s' % q.split('::')[-1]
    return None


def reads(f, g):
    """f looks at the value of the variable g"""
    for n in f.nodes.values():
        if named(f, n, g):
            u = f.nodes.get(parents(f).get(n['i'], -1))
            if u is not None and u['k'] in ('BinaryOperator',) and u['op'] == '=' and u['c'][0] == n['i']:
                continue
            if u is not None and u['k'] == 'CXXOperatorCallExpr' and u.get('qn', '').endswith('operator=') and u['c'][0] == n['i']:
                continue
            if u is not None and u['k'] == 'UnaryOperator' and u['op'] in ('++', '--') and (f.nodes.get(parents(f).get(u['i'], -1)) or {}).get('k') in ('CompoundStmt', 'IfStmt', 'ForStmt'):
                continue
            return True
    return False


def unset(f, rep):
    """a plain local variable is given a value before it is read, on every path"""
    vs = {}
    for n in f.nodes.values():
        if n['k'] == 'DeclStmt':
            for v in n.get('vars', []):
                if v.get('init', -1) < 0 and not v.get('static') and not v.get('ref') and scalar(v['vt'], _NoEnum):
                    vs[v['lid']] = v['name']
    if not vs:
        return
    par = parents(f)

    def kind(n):
        u = f.nodes.get(par.get(n['i'], -1))
        if u is None:
            return 'use'
        if u['k'] == 'BinaryOperator' and u['op'] == '=' and u['c'][0] == n['i'] or u['k'] == 'UnaryOperator' and u['op'] == '&':
            return 'set'
        if 'ck' in u and (u['ck'] == 'LValueToRValue' or u.get('t', '').startswith('const ')):
            return 'use'
        if u['k'] in ('CompoundAssignOperator', 'UnaryOperator'):
            return 'use'
        if u.get('pt') and n['i'] in u['c']:
            sh = u['k'] == 'CXXMemberCallExpr' or u['k'] == 'CXXOperatorCallExpr' and len(u['pt']) < len(u['c'])
            k = u['c'].index(n['i']) - sh
            if 0 <= k < len(u['pt']) and u['pt'][k].startswith('const '):
                return 'use'
        return 'set'            # bound to a reference: may be set there
    for lid, name in vs.items():
        start = next((n['i'] for n in f.nodes.values() if n['k'] == 'DeclStmt' and any(v['lid'] == lid for v in n['vars'])), None)
        sb = None
        for b, B in f.blocks.items():
            if start in B['e']:
                sb = (b, B['e'].index(start))
        if sb is None:
            continue
        seen, todo, bad = set(), [(sb[0], sb[1] + 1)], None
        while todo and bad is None:
            b, k = todo.pop()
            if (b, k > 0) in seen or b not in f.blocks:
                continue
            seen.add((b, k > 0))
            for e in f.blocks[b]['e'][k:]:
                n = f.nodes.get(e) if isinstance(e, int) else None
                if n is None:
                    continue
                if n['k'] == 'DeclRefExpr' and n.get('lid') == lid:
                    q = kind(n)
                    if q == 'use':
                        bad = n
                        break
                    # an assignment takes effect after its right side, which may read the variable
                    u = f.nodes.get(par.get(n['i'], -1))
                    if u['k'] == 'BinaryOperator' and u['op'] == '=' and any(m['k'] == 'DeclRefExpr' and m.get('lid') == lid and kind(m) == 'use' for m in f.walk(u['c'][1])):
                        bad = n
                    break
                if n['k'] == 'LambdaExpr' and any(c.get('lid') == lid for c in n.get('caps', [])):
                    break
            else:
                todo.extend((s, 0) for s in f.blocks[b]['s'] if s is not None and s >= 0)
        if bad is not None:
            rep.bad('undefined', where(f, bad), '%s may read %s before giving it a value' % (nm(f), name))
        else:
            rep.ok('undefined', where(f, f.nodes[start]))


class _NoEnum:
    enums = ()
