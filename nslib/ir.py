"""Loads the type-checked program of /repo through nsx (libTooling) into Python."""
import json, os, subprocess, hashlib, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NS_REPO', '/repo')


class AnalysisError(Exception):
    """the analysis itself is broken (missing anchor, unparsable unit): error exit, never a verdict"""


def build_nsx():
    out = os.path.join(VERIF, 'build', 'nsx')
    src = os.path.join(VERIF, 'extractor', 'nsx.cpp')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    r = subprocess.run(['bash', os.path.join(VERIF, 'extractor', 'build.sh'), out], capture_output=True, text=True)
    if r.returncode or not os.path.exists(out):
        raise AnalysisError('cannot build the extractor: ' + r.stderr[-2000:])
    return out


class Func:
    def __init__(self, d, tu):
        self.__dict__.update(d)
        self.tu = tu
        self.nodes = {x['i']: x for x in d['n']}
        self.blocks = {b['b']: b for b in d.get('cfg', [])}
        self.params = d.get('params', [])
        self._loops = None
        self._cross = None

    def node(self, i):
        return self.nodes[i]

    def where(self, i=None):
        f = os.path.relpath(self.file, REPO)
        return '%s:%s' % (f, self.nodes[i]['l'] if i is not None and i in self.nodes else self.line)

    def walk(self, i=None):
        """all nodes below i (default: whole function incl. ctor inits)"""
        if i is None:
            yield from self.nodes.values()
            return
        st = [i]
        seen = set()
        while st:
            x = st.pop()
            if x < 0 or x in seen or x not in self.nodes:
                continue
            seen.add(x)
            n = self.nodes[x]
            yield n
            st.extend(reversed(n.get('c', [])))

    # ---- loops: back edges by DFS dominance approximation ----
    def loops(self):
        """{head: set(body blocks)} natural loops of DFS back edges"""
        if self._loops is not None:
            return self._loops
        succ = {b: [s for s in x['s'] if s >= 0] for b, x in self.blocks.items()}
        pred = {b: [] for b in succ}
        for b, ss in succ.items():
            for s in ss:
                pred[s].append(b)
        color, back, stack = {}, [], []
        if not self.blocks:
            self._loops = {}
            return self._loops
        st = [(self.entry, iter(succ[self.entry]))]
        color[self.entry] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if color.get(s, 0) == 1:
                    back.append((b, s))
                elif color.get(s, 0) == 0:
                    color[s] = 1
                    st.append((s, iter(succ[s])))
                    break
            else:
                color[b] = 2
                st.pop()
        loops = {}
        for t, h in back:
            body = loops.setdefault(h, {h})
            w = [t]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w.extend(pred[x])
        self._loops = loops
        return loops

    def cross(self):
        """node ids used (as a child) by an element of a different block than the one evaluating it"""
        if self._cross is None:
            home = {}
            for b, x in self.blocks.items():
                for e in x['e']:
                    home[e] = b
            use = {}
            for b, x in self.blocks.items():
                ids = set()
                for e in x['e']:
                    ids.update(self._deep(e, home))
                if 'tc' in x:
                    ids.add(x['tc'])
                    ids.update(self._deep(x['tc'], home))
                use[b] = ids
            self._home, self._use = home, use
            # liveness of cross nodes
            live = {b: set() for b in self.blocks}
            ch = True
            while ch:
                ch = False
                for b, x in self.blocks.items():
                    o = set()
                    for s in x['s']:
                        if s >= 0:
                            o |= live[s] | {i for i in use[s] if home.get(i) != s}
                    o2 = {i for i in o}
                    new = {i for i in o2 if True}
                    li = {i for i in new if home.get(i) != b}
                    if li != live[b]:
                        live[b] = li
                        ch = True
            self._cross = {}
            for b, x in self.blocks.items():
                o = set()
                for s in x['s']:
                    if s >= 0:
                        o |= live[s] | {i for i in use[s] if home.get(i) != s}
                self._cross[b] = o
        return self._cross

    def _deep(self, e, home):
        """children of e, looking through nodes that are no CFG elements"""
        out = set()
        st = list(self.nodes[e].get('c', []))
        while st:
            c = st.pop()
            if c < 0 or c not in self.nodes:
                continue
            if c in home:
                out.add(c)
            else:
                st.extend(self.nodes[c].get('c', []))
        return out

    def __repr__(self):
        return '<%s %s:%s>' % (self.qn, os.path.basename(self.file), self.line)


class Program:
    def __init__(self):
        self.funcs = {}     # fid -> Func
        self.by_qn = {}     # qn -> [Func]
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.units = []

    def fn(self, qn, nparams=None, pred=None):
        c = self.by_qn.get(qn, [])
        if nparams is not None:
            c = [f for f in c if len(f.params) == nparams]
        if pred:
            c = [f for f in c if pred(f)]
        return c

    def need(self, qn, nparams=None, pred=None):
        c = self.fn(qn, nparams, pred)
        if not c:
            raise AnalysisError('anchor vanished: no definition of %s' % qn)
        return c[0]


def _run(nsx, f, flags):
    cmd = [nsx, REPO, f, '--'] + flags
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode or not r.stdout.strip():
        raise AnalysisError('clang cannot parse %s: %s' % (f, r.stderr[-1500:]))
    return json.loads(r.stdout)


def all_units():
    out = []
    for d, _, fs in sorted(os.walk(os.path.join(REPO, 'src'))):
        if '/gui' in d or '/environment' in d:
            continue
        for f in sorted(fs):
            if f.endswith('.cpp'):
                out.append(os.path.join(d, f))
    out.append(os.path.join(REPO, 'main.cpp'))
    return [f for f in out if os.path.exists(f)]


def load(units=None, debug=False, extra=()):
    """units: list of basenames (relative to /repo) or None for everything"""
    nsx = build_nsx()
    files = all_units() if units is None else [u if os.path.isabs(u) else os.path.join(REPO, u) for u in units]
    for f in files:
        if not os.path.exists(f):
            raise AnalysisError('anchor vanished: no file ' + f)
    flags = ['-std=c++20', '-w', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + VERIF + '/stubs',
             '-resource-dir', '/usr/lib/llvm-18/lib/clang/18'] + list(extra)
    if not debug:
        flags.append('-DNDEBUG')
    with ThreadPoolExecutor(8) as ex:
        datas = list(ex.map(lambda f: _run(nsx, f, flags), files))
    P = Program()
    for f, d in zip(files, datas):
        P.units.append(os.path.relpath(f, REPO))
        for fd in d['functions']:
            fid = fd['fid']
            if fid in P.funcs:
                continue
            fn = Func(fd, f)
            P.funcs[fid] = fn
            P.by_qn.setdefault(fn.qn, []).append(fn)
        for r in d['records']:
            P.records.setdefault(r['qn'], r)
        for e in d['enums']:
            P.enums.setdefault(e['qn'], e)
        for g in d['globals']:
            P.globals.setdefault(g['qn'], g)
    if not P.funcs:
        raise AnalysisError('no function extracted')
    return P
