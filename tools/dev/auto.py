"""auto.py N SEED FILES...: random one-token changes; prints those no check reports"""
import os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
N, SEED, files = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
OPS = [(r'(?<![<>=!+\-*/&|^])<(?![<=])(?= )', ['<=']), (r' <= ', [' < ']), (r' > ', [' >= ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']),
       (r' && ', [' || ']), (r' \|\| ', [' && ']), (r'(?<=\()!(?=[a-z_])', ['']), (r' \+ 1\b', ['', ' + 2']), (r' - 1\b', ['']), (r'= 0;', ['= 1;']), (r'= 1;', ['= 0;', '= 2;']),
       (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r' \+= ', [' -= ']), (r'\[0\]', ['[1]']), (r'\[1\]', ['[0]']), (r'\bbreak;', ['continue;']), (r'\bcontinue;', ['break;']), (r'(?<=[(= ])~(?=[a-z])', ['']),
       (r'^(\s+)([a-z_][\w\.\->\[\]]*(\(.*\)|\+\+|--| [-+|&]?= .*));$', [r'\1;']), (r'LEVEL_UNDEF', ['LEVEL_ROOT']), (r'CLAUSE_UNDEF', ['CLAUSE_LAZY'])]
SKIP = re.compile(r'NOTIFY|ASSERT|LOG_|cout|cerr|assert|^\s*//|^\s*\*|std::string|#|_stats|print')
MAP = {'conflict': 'S06 P02 S02 S07 S08 S01', 'clauses': 'S03 S08 S05 P02', 'backtrack': 'S01 S06', 'assumptions': 'S02 S01 S06 I02', 'imply': 'S01 S04 P02', 'purge': 'S05 P02 S08',
       'propagation': 'S04 S06 S02', 'NapSAT-utils': 'S03 S01 S05 S02 I01', 'solver/NapSAT.cpp': 'S02 S03 S07 S08 P02 I02 S01 S06 S05', 'NapSAT.hpp': 'S01 S02 S03 S04 S05 S06 S07 S08 P02', 'heap': 'H01 H02', 'bitset': 'B01 B02', 'dependency': 'D01', 'partition': 'A01',
       'proof/proof': 'P01', 'luby': 'L01', 'options': 'O01', 'SAT-API': 'I02', 'main': 'I03', 'decoder': 'I01', 'types': 'T01'}
rnd = random.Random(SEED)
cands = []
for f in files:
    ls = open('/repo/' + f).read().split('\n')
    for i, l in enumerate(ls):
        if SKIP.search(l):
            continue
        for rx, reps in OPS:
            for m in re.finditer(rx, l):
                for r in reps:
                    cands.append((f, i, l, l[:m.start()] + m.expand(r) + l[m.end():]))
rnd.shuffle(cands)


def one(c):
    k, (f, i, a, b) = c
    d = '/tmp/am/%d_%d' % (SEED, k)
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run('mkdir -p %s; cp -a /repo/[a-zA-Z]* %s/' % (d, d), shell=True)
    try:
        ls = open(d + '/' + f).read().split('\n')
        ls[i] = b
        open(d + '/' + f, 'w').write('\n'.join(ls))
        src = f if f.endswith('.cpp') else 'src/solver/NapSAT.cpp'
        if subprocess.run(['g++', '-std=c++20', '-w', '-fsyntax-only', '-I', 'include', '-I', 'src', '-I', 'src/utils', '-I', 'src/proof', '-I', '/verif/stubs', src], cwd=d, capture_output=True).returncode:
            return c, 'NOCOMPILE', ''
        und = []
        ids = next((v for k2, v in MAP.items() if k2 in f), 'S01 S02 S03 S04 S05 S06 S07 S08 P02 I02').split()
        for p in ids + ['X02']:
            r = subprocess.run([sys.executable, '/verif/check.py', p], env=dict(os.environ, NS_REPO=d, NS_EVID='/tmp/am/ev%d_%d' % (SEED, k)), capture_output=True, text=True)
            if r.returncode:
                return c, 'caught ' + p, ''
            und += [p + ' ' + l[:110] for l in r.stdout.splitlines() if 'UNDEC' in l][:2]
        return c, 'SURVIVED', ' | '.join(und)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree('/tmp/am/ev%d_%d' % (SEED, k), ignore_errors=True)


with ThreadPoolExecutor(int(os.environ.get('J', 7))) as ex:
    for (k, (f, i, a, b)), s, u in ex.map(one, list(enumerate(cands[:N]))):
        print('%s %s:%d' % (s, f, i + 1), flush=True)
        if s == 'SURVIVED':
            print('   - ' + a.strip() + '\n   + ' + b.strip() + ('\n   ? ' + u if u else ''), flush=True)
