"""Call graph and transitive may-write / may-read sets (field granularity) over the resolved program."""
MUT_STD = {'push_back', 'emplace_back', 'pop_back', 'resize', 'clear', 'insert', 'erase', 'reserve', 'assign', 'swap',
           'operator=', 'operator+=', 'append', 'emplace', 'push', 'pop', 'remove', 'shrink_to_fit', 'fill', 'write',
           'open', 'close', 'operator<<', 'operator>>', 'getline', 'read', 'str', 'reset', 'release', 'operator|=',
           'operator&=', 'operator^=', 'operator-=', 'operator++', 'operator--'}


def lv_root(fn, i):
    """classes of storage an lvalue expression designates: yields ('F',qn) / ('L',lid) / ('D',type)"""
    n = fn.nodes.get(i)
    if n is None:
        return None
    k = n['k']
    if k == 'MemberExpr':
        return ('F', n['qn'])
    if k == 'DeclRefExpr':
        if n.get('dk') in ('local', 'param', 'slocal', 'binding'):
            return ('L', n['lid'])
        if n.get('dk') == 'global':
            return ('G', n['qn'])
        return None
    if k == 'ArraySubscriptExpr':
        return sub(fn, n['c'][0], n['t'])
    if k == 'UnaryOperator' and n['op'] == '*':
        return ('D', n['t'])
    if k == 'UnaryOperator' and n['op'] in ('++', '--'):
        return lv_root(fn, n['c'][0])
    if k in ('CXXOperatorCallExpr', 'CXXMemberCallExpr'):
        nm = n.get('qn', '').split('::')[-1]
        if nm == 'operator[]' or nm in ('back', 'front', 'at', 'data', 'begin', 'end'):
            r = lv_root(fn, n['c'][0])
            return r
        if nm == 'operator*' or nm == 'operator->':
            return ('D', n['t'])
        if nm in ('operator=', 'operator+=', 'operator<<', 'operator>>'):
            return lv_root(fn, n['c'][0])
        return ('D', n['t'])
    if k == 'ConditionalOperator':
        return ('D', n['t'])
    if k in ('BinaryOperator', 'CompoundAssignOperator') and n['c']:
        return lv_root(fn, n['c'][0])
    if 'ck' in n and n['c']:
        return lv_root(fn, n['c'][0])
    if k == 'CallExpr':
        return ('D', n['t'])
    return ('D', n['t']) if n.get('lv') else None


def sub(fn, i, t):
    n = fn.nodes.get(i)
    while n is not None and 'ck' in n and n['c']:
        n = fn.nodes.get(n['c'][0])
    if n is not None and n['k'] == 'MemberExpr':
        return ('F', n['qn'])
    return ('D', t)


class Effects:
    def __init__(self, P):
        self.P = P
        self.direct = {}
        self.rd = {}
        self.calls = {}
        for fid, f in P.funcs.items():
            self.direct[fid], self.rd[fid], self.calls[fid] = self._scan(f)
        self.mod, self.ref = {}, {}
        self._close()

    def _scan(self, f):
        w, r, calls = set(), set(), set()
        for n in f.nodes.values():
            k = n['k']
            if k in ('BinaryOperator', 'CompoundAssignOperator') and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                x = lv_root(f, n['c'][0])
                if x: w.add(x)
            elif k == 'UnaryOperator' and n['op'] in ('++', '--'):
                x = lv_root(f, n['c'][0])
                if x: w.add(x)
            elif k == 'MemberExpr' and n.get('dk') == 'field':
                r.add(('F', n['qn']))
            elif k == 'DeclRefExpr' and n.get('dk') == 'global':
                r.add(('G', n['qn']))
            if 'fid' in n and k != 'DeclRefExpr':
                calls.add(n['fid'])
                if n['fid'] not in self.P.funcs:
                    nm = n.get('qn', '').split('::')[-1]
                    if k in ('CXXMemberCallExpr', 'CXXOperatorCallExpr') and not n.get('constm') and nm in MUT_STD and n['c']:
                        x = lv_root(f, n['c'][0])
                        if x: w.add(x)
                    if nm in ('swap', 'iter_swap', 'move', 'sort', 'fill', 'copy', 'memcpy', 'remove', 'memset', 'exchange'):
                        for c in n['c']:
                            x = lv_root(f, c)
                            if x: w.add(x)
            if k == 'DeclRefExpr' and n.get('dk') == 'func':
                calls.add(n['fid'])
        for it in getattr(f, 'inits', []) or []:
            if 'field' in it:
                w.add(('F', it['field']))
        w = {x for x in w if x[0] != 'L' or self._refparam(f, x[1])}
        return w, r, calls

    def _refparam(self, f, lid):
        return any(p['lid'] == lid and '&' in p['t'] for p in f.params)

    def _close(self):
        # L entries (writes through reference params) become ('P',) markers: unknown memory of that type, resolved by caller
        for fid in self.direct:
            self.mod[fid] = set()
            f = self.P.funcs[fid]
            for x in self.direct[fid]:
                if x[0] == 'L':
                    t = [p['t'] for p in f.params if p['lid'] == x[1]][0]
                    self.mod[fid].add(('D', t.replace('&', '').strip()))
                else:
                    self.mod[fid].add(x)
            self.ref[fid] = set(self.rd[fid])
        ch = True
        while ch:
            ch = False
            for fid in self.mod:
                m, r = self.mod[fid], self.ref[fid]
                a, b = len(m), len(r)
                for c in self.calls[fid]:
                    if c in self.mod and c != fid:
                        m |= self.mod[c]
                        r |= self.ref[c]
                if len(m) != a or len(r) != b:
                    ch = True

    def callers(self, fid):
        return [g for g in self.calls if fid in self.calls[g]]

    def reach(self, fid):
        out, st = set(), [fid]
        while st:
            x = st.pop()
            if x in out:
                continue
            out.add(x)
            st.extend(c for c in self.calls.get(x, ()) if c in self.P.funcs)
        return out
