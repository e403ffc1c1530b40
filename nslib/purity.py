"""Where do writes go?  Per function, the set of writes that leave it: (root, what), where root is the object reached from
('this',), ('p', i), ('G', global), ('F', pointer field) or ('?',), computed flow-insensitively with summaries up the call graph.
Writes to objects that live and die in the function are left out."""
from nslib.effects import MUT_STD

LOCAL = ('local',)
ALGW = ('swap', 'iter_swap', 'sort', 'stable_sort', 'fill', 'fill_n', 'copy', 'copy_n', 'copy_if', 'memcpy', 'memmove', 'memset', 'remove', 'remove_if', 'unique', 'reverse', 'rotate', 'exchange', 'iota', 'transform',
        'partition', 'stable_partition', 'nth_element', 'partial_sort', 'for_each', 'getline', 'move', 'push_heap', 'pop_heap', 'make_heap', 'replace', 'merge', 'inplace_merge', 'shuffle', 'generate')
OPW = ('operator=', 'operator++', 'operator--', 'operator+=', 'operator-=', 'operator|=', 'operator&=', 'operator^=', 'operator<<', 'operator>>', 'push', 'pop')
STREAM = ('basic_ostream', 'basic_ios', 'ostringstream', 'stringstream', 'ofstream', 'basic_ofstream', 'basic_ostringstream', 'basic_stringstream')


def indirect(t):
    """values of this type lead to other objects"""
    t = t or ''
    return t.endswith('*') or t.endswith('&') or 'iterator' in t or '*const' in t or t.startswith('std::function') or 'reference' in t or 'std::span' in t or 'reference_wrapper' in t or 'unique_ptr' in t


class Purity:
    def __init__(self, P):
        self.P = P
        self.W = {f: set() for f in P.funcs}
        self.R = {f: set() for f in P.funcs}     # roots of what is returned
        self.pts = {}
        self.vars = {fid: self.variables(f) for fid, f in P.funcs.items()}
        self.cap = {}
        for fid, f in P.funcs.items():
            for n in f.nodes.values():
                if n['k'] == 'LambdaExpr' and n.get('fid') in P.funcs:
                    self.cap[n['fid']] = (fid, {c.get('name'): c for c in n.get('caps', []) if 'name' in c})
        callers = {}
        for fid, f in P.funcs.items():
            for n in f.nodes.values():
                if n.get('fid') in P.funcs:
                    callers.setdefault(n['fid'], set()).add(fid)
        todo = set(P.funcs)
        while todo:
            nxt = set()
            for fid in sorted(todo):
                w, r, pt = self.scan(P.funcs[fid])
                if w != self.W[fid] or r != self.R[fid] or pt != self.pts.get(fid):
                    self.W[fid], self.R[fid], self.pts[fid] = w, r, pt
                    nxt |= callers.get(fid, set()) | {fid}
                    nxt |= {l for l, (o, _) in self.cap.items() if o == fid}
            todo = nxt

    # ---- where an object lives, and what a pointer, iterator or view leads to
    def addr(self, f, i, pt, depth=0):
        """roots of the storage of an expression"""
        n = f.nodes.get(i)
        if n is None or depth > 40:
            return {('?',)}
        k = n['k']
        c = n.get('c', [])
        A = lambda x: self.addr(f, x, pt, depth + 1)
        V = lambda x: self.val(f, x, pt, depth + 1)
        if k == 'CXXThisExpr':
            return {('this',)}
        if k == 'DeclRefExpr':
            dk = n.get('dk')
            if dk == 'slocal':
                return {('G', f.qn + '::' + n['name'])}
            if dk == 'global':
                return {('G', n['qn'])}
            if dk in ('local', 'param', 'binding'):
                v = self.vars[f.fid].get(n['lid'])
                if v is not None:
                    if v['ref']:
                        return pt.get(n['lid']) or {LOCAL}
                    return {('var', n['name'])}
                o = self.cap.get(f.fid)
                if o and n['name'] in o[1]:
                    return {('cap', n['name'])}
                return {('var', n['name'])}
            return {LOCAL}
        if k == 'MemberExpr':
            if n.get('dk') != 'field' or not c:
                return {('G', n.get('qn', '?'))}
            if n.get('t', '').endswith('&'):
                return {('F', n['qn'])}
            return self.at(f, c[0], pt, depth + 1)
        if k == 'ArraySubscriptExpr':
            return V(c[0])
        if k == 'UnaryOperator':
            return V(c[0]) if n['op'] == '*' else A(c[0])
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            return A(c[1]) if n['op'] == ',' else A(c[0])
        if k == 'ConditionalOperator':
            return A(c[1]) | A(c[2])
        if k == 'ParenExpr' or 'ck' in n and c:
            return A(c[0])
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            if not n.get('lv'):
                return {LOCAL}
            return self.ret(f, n, pt, depth)
        return {LOCAL} if not n.get('lv') or k == 'StringLiteral' else set().union(*[A(x) for x in c]) if c else {('?',)}

    def at(self, f, i, pt, depth=0):
        """roots of the object a member access goes to"""
        n = f.nodes.get(i)
        if n is not None and (n['k'] == 'CXXThisExpr' or n.get('t', '').endswith('*') or n.get('t', '').endswith('*const')):
            return self.val(f, i, pt, depth + 1)
        if n is not None and not n.get('lv') and indirect(n.get('t')):
            return {LOCAL}
        return self.addr(f, i, pt, depth + 1)

    def ret(self, f, n, pt, depth=0):
        c = n.get('c', [])
        fid = n.get('fid')
        if fid in self.P.funcs:
            return self.mapped(f, n, self.R[fid], pt)
        if not c:
            return {('?',)} if n.get('indirect') else {('G', n.get('qn', '?'))}
        out = set()
        for x in (c[:1] if n['k'] != 'CallExpr' else c):
            m = f.nodes.get(x)
            out |= self.val(f, x, pt, depth + 1) if m is not None and indirect(m.get('t')) else self.addr(f, x, pt, depth + 1)
        return {x for x in out if x != LOCAL} or {LOCAL}

    def val(self, f, i, pt, depth=0):
        """roots of what the value of an expression leads to"""
        n = f.nodes.get(i)
        if n is None or depth > 40:
            return {('?',)}
        k = n['k']
        c = n.get('c', [])
        A = lambda x: self.addr(f, x, pt, depth + 1)
        V = lambda x: self.val(f, x, pt, depth + 1)
        t = n.get('t')
        if k == 'CXXThisExpr':
            return {('this',)}
        if k == 'DeclRefExpr':
            if n.get('dk') in ('local', 'param', 'binding'):
                v = self.vars[f.fid].get(n['lid'])
                if v is not None:
                    return pt.get(n['lid']) or {LOCAL}
                o = self.cap.get(f.fid)
                if o and n['name'] in o[1]:
                    return {('cap', n['name'])}
                return {LOCAL}
            if n.get('dk') == 'slocal':
                return {('G', f.qn + '::' + n['name'])}
            return {('G', n['qn'])} if n.get('dk') == 'global' else {LOCAL}
        if k == 'MemberExpr':
            if not indirect(t):
                return A(i)                 # array
            return {('F', n.get('qn', '?'))}
        if k == 'UnaryOperator':
            if n['op'] == '&':
                return A(c[0])
            if n['op'] == '*':
                return {('F', str(t))} if indirect(t) else A(i)
            return V(c[0])
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            return V(c[1]) if n['op'] in (',', '=') else set().union(*[V(x) for x in c if indirect((f.nodes.get(x) or {}).get('t')) or (f.nodes.get(x) or {}).get('t', '').endswith(']')]) or {LOCAL}
        if k == 'ConditionalOperator':
            return V(c[1]) | V(c[2])
        if k == 'ParenExpr' or 'ck' in n and c:
            return V(c[0])
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            if n.get('lv') and not indirect(t):
                return A(i)
            if not indirect(t):
                return {LOCAL}
            return self.ret(f, n, pt, depth)
        if k == 'ArraySubscriptExpr':
            return {('F', str(t))} if indirect(t) else A(i)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr', 'CXXFunctionalCastExpr'):
            out = set()
            for x in c:
                m = f.nodes.get(x)
                if m is not None and indirect(m.get('t')):
                    out |= V(x)
                elif m is not None and indirect(t) and m.get('lv'):
                    out |= A(x)
            return out or {LOCAL}
        return {LOCAL} if not n.get('lv') else A(i)

    def mapped(self, f, n, roots, pt):
        """the callee's roots in terms of the caller"""
        out = set()
        g = self.P.funcs[n['fid']]
        c = n.get('c', [])
        isop = n['k'] == 'CXXMemberCallExpr' or n['k'] == 'CXXOperatorCallExpr' and (g.kind == 'method' or getattr(g, 'lambda', False))
        for r in roots:
            if r == ('this',):
                out |= self.at(f, c[0], pt) if isop and c else {LOCAL} if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') else {('this',)}
            elif r[0] == 'p':
                k = r[1] + (1 if isop else 0)
                if k >= len(c):
                    out.add(('?',))
                elif r[1] < len(g.params) and g.params[r[1]]['t'].endswith('&'):
                    out |= self.addr(f, c[k], pt)
                else:
                    out |= self.val(f, c[k], pt)
            elif r[0] == 'cap':
                out |= self.capvar(f, r[1], pt)
            elif r[0] != 'var':
                out.add(r)
        return out

    def capvar(self, f, name, pt):
        for lid, v in self.vars[f.fid].items():
            if v['name'] == name:
                return (pt.get(lid) or {LOCAL}) if v['ref'] else {('var', name)} | {x for x in pt.get(lid, ()) if x != LOCAL}
        o = self.cap.get(f.fid)
        if o and name in o[1]:
            return {('cap', name)}
        return {('var', name)}

    def param(self, f, lid):
        for p in f.params:
            if p['lid'] == lid:
                return p
        return None

    def what(self, f, i):
        """name of the storage written"""
        n = f.nodes.get(i)
        while n is not None:
            if n['k'] == 'MemberExpr':
                return n.get('qn', '?')
            if n['k'] == 'DeclRefExpr':
                return n.get('qn', n.get('name', '?'))
            if n['k'] in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr') and n.get('fid') in self.P.funcs:
                return n['qn'] + '()'
            c = n.get('c', [])
            n = f.nodes.get(c[0]) if c else None
        return '?'

    def effects(self, f, n, pt):
        """direct and called writes of one node: set of (root, what); ('var', name) are variables of f itself"""
        k = n['k']
        c = n.get('c', [])
        out = set()

        def wr(roots, i):
            w = self.what(f, i)
            for r in roots:
                if r != LOCAL:
                    out.add((r, w))
        fid = n.get('fid')
        if k in ('BinaryOperator', 'CompoundAssignOperator') and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>=') or k == 'UnaryOperator' and n['op'] in ('++', '--'):
            wr(self.addr(f, c[0], pt), c[0])
        elif k == 'CXXDeleteExpr':
            wr(self.val(f, c[0], pt), c[0])
        elif k == 'LambdaExpr':
            for r, x in self.W.get(fid, ()):
                if r[0] == 'cap':
                    out |= {(q, x) for q in self.capvar(f, r[1], pt) if q != LOCAL}
                elif r[0] != 'p':
                    out.add((r, x))
        elif fid in self.W and k not in ('DeclRefExpr', 'MemberExpr'):
            if not getattr(self.P.funcs[fid], 'lambda', False):
                g = self.P.funcs[fid]
                sh = 1 if k == 'CXXMemberCallExpr' or k == 'CXXOperatorCallExpr' and (g.kind == 'method' or getattr(g, 'lambda', False)) else 0
                for r, x in self.W[fid]:
                    # storage named after the callee's parameter is named after the argument here
                    if '::' not in x and r[0] == 'p' and r[1] + sh < len(c):
                        x = self.what(f, c[r[1] + sh])
                    for q in self.mapped(f, n, {r}, pt):
                        if q != LOCAL:
                            out.add((q, x))
        elif fid is not None and k not in ('DeclRefExpr', 'MemberExpr'):
            nm = n.get('qn', '').split('::')[-1].split('<')[0]
            if k in ('CXXMemberCallExpr', 'CXXOperatorCallExpr') and not n.get('constm') and (nm in MUT_STD or nm in OPW) and c:
                t = (f.nodes.get(c[0]) or {}).get('t', '')
                if nm in ('operator<<', 'operator>>') and 'stream' not in t and 'ofstream' not in t and nm not in MUT_STD:
                    return out
                wr(self.at(f, c[0], pt), c[0])
            elif k == 'CallExpr' and nm in ALGW:
                cs = c[:1] if nm in ('memcpy', 'memmove', 'memset') else c[2:3] if nm in ('copy', 'copy_n', 'copy_if') else c[2:] if nm == 'transform' else c
                for x in cs:
                    m = f.nodes.get(x)
                    if m is not None and m.get('t', '').startswith('const ') and m['t'].endswith('*'):
                        continue
                    if m is not None and indirect(m.get('t')):
                        wr(self.val(f, x, pt), x)
                    elif m is not None and m.get('lv'):
                        wr(self.addr(f, x, pt), x)
        return out

    def scan(self, f):
        # what local pointers, references and iterators lead to
        pt = {}
        for lid, v in self.vars[f.fid].items():
            if v['param'] is not None and (v['ref'] or indirect(v['t'])):
                pt[lid] = {('p', v['param'])}
            elif v['ref'] or indirect(v['t']):
                pt[lid] = set()
        ch = True
        while ch:
            ch = False

            def add(lid, rs):
                nonlocal ch
                rs = rs - {LOCAL}
                if not rs <= pt[lid]:
                    pt[lid] = pt[lid] | rs
                    ch = True
            for n in f.nodes.values():
                if n['k'] == 'DeclStmt':
                    for v in n.get('vars', []):
                        if v.get('init', -1) < 0 or v.get('static'):
                            continue
                        if v['lid'] in pt:
                            add(v['lid'], self.addr(f, v['init'], pt) if self.vars[f.fid][v['lid']]['ref'] else self.val(f, v['init'], pt))
                        for b in v.get('bind', []):
                            lid = b if not isinstance(b, dict) else b['lid']
                            if lid in pt:
                                add(lid, self.addr(f, v['init'], pt))
                elif n['k'] == 'BinaryOperator' and n['op'] == '=' or n['k'] == 'CXXOperatorCallExpr' and n.get('qn', '').endswith('operator=') and len(n['c']) == 2:
                    m = f.nodes.get(n['c'][0])
                    if m is not None and m['k'] == 'DeclRefExpr' and m.get('lid') in pt and not self.vars[f.fid][m['lid']]['ref']:
                        add(m['lid'], self.val(f, n['c'][1], pt))
        W = set()
        for n in f.nodes.values():
            for r, x in self.effects(f, n, pt):
                if r[0] == 'var':
                    continue
                W.add((r, x))
        for it in getattr(f, 'inits', []) or []:
            if 'field' in it:
                W.add((('this',), it['field']))
        R = set()
        if f.ret and (f.ret.endswith('&') or indirect(f.ret)):
            for n in f.nodes.values():
                if n['k'] == 'ReturnStmt' and n['c']:
                    R |= self.addr(f, n['c'][0], pt) if f.ret.endswith('&') else self.val(f, n['c'][0], pt)
        return W, {r for r in R if r[0] != 'var'}, pt

    def variables(self, f):
        out = {}
        for i, p in enumerate(f.params):
            out[p['lid']] = dict(name=p['name'], t=p['t'].rstrip('&').strip(), ref=p['t'].endswith('&'), param=i)
        for n in f.nodes.values():
            for v in n.get('vars', []) if n['k'] == 'DeclStmt' else []:
                if v.get('static'):
                    continue
                out[v['lid']] = dict(name=v['name'], t=v['vt'].rstrip('&').strip(), ref=bool(v.get('ref')) or v['vt'].endswith('&'), param=None)
                for b in v.get('bind', []):
                    if isinstance(b, dict):
                        out[b['lid']] = dict(name=b.get('name', ''), t=b.get('t', ''), ref=bool(v.get('ref')), param=None)
                    else:
                        out[b] = dict(name='', t='', ref=bool(v.get('ref')), param=None)
        return out
