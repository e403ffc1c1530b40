#!/usr/bin/env python3
"""mkseed.py SPEC.py [names]: turn planted-bug descriptions into /verif/seeded/<id>/ and confirm them in a scratch copy.

SPEC defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=<C++ source>, kind='utils'|'solver')]
or demo_sh for a shell demonstration."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#!/bin/bash
# run in /repo: exit 0 when the property holds in the demonstrated case
here="$(cd "$(dirname "$0")" && pwd)"
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
'''
UTILS = HEAD + '''g++ -std=c++20 -O1 -w %s -I include -I src -I src/utils -I src/proof -I "$here" "$here/demo.cpp" %s -o "$d/demo" %s || exit 3
cd "$d" && timeout 120 ./demo
'''
SOLVER = HEAD + '''ls src/*.cpp src/*/*.cpp | grep -v /gui/ | xargs -P 8 -I{} sh -c 'g++ -std=c++20 -O1 -w %s -I include -I src -I "'"$here"'" -c {} -o "'"$d"'/$(echo {} | tr / _).o"' || exit 3
g++ -std=c++20 -O1 -w %s -I include -I src -I "$here" %s "$d"/*.o -o "$d/demo" -llzma -lbz2 || exit 3
cd "$d" && timeout 120 %s
'''


def build(bug):
    d = os.path.join(V, 'seeded', bug['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = '/tmp/seed/' + bug['id']
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs('/tmp/seed', exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    for f, o, n in bug['edits']:
        p = os.path.join(w, f)
        s = open(p).read()
        if s.count(o) != 1:
            return bug['id'], 'EDIT: %d matches of %r' % (s.count(o), o[:60])
        open(p, 'w').write(s.replace(o, n))
    diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    if 'demo' in bug:
        open(d + '/demo.cpp', 'w').write(bug['demo'])
    fl = bug.get('flags', '')
    if bug.get('demo_sh'):
        sh = HEAD + bug['demo_sh']
    elif bug.get('kind', 'utils') == 'utils':
        sh = UTILS % (fl, ' '.join(bug['srcs']), bug.get('libs', ''))
    else:
        sh = SOLVER % (fl, fl, 'main.cpp' if bug.get('main') else '"$here/demo.cpp"', bug.get('run', './demo'))
    if bug.get('kind') == 'solver' or bug.get('stubs'):
        if bug.get('kind') == 'solver':
            shutil.copy(os.path.join(V, 'tools', 'seedspec', 'base.hpp'), d)
        for s in ('Sentinel-API.hpp', 'Sentinel-options.hpp'):
            shutil.copy(os.path.join(V, 'stubs', s), d)
    for n, t in bug.get('files', {}).items():
        open(os.path.join(d, n), 'w').write(t)
    open(d + '/demo.sh', 'w').write(sh)
    os.chmod(d + '/demo.sh', 0o755)
    lay = '/tmp/seed/lay-' + bug['id']
    shutil.rmtree(lay, ignore_errors=True)
    shutil.copytree(d, lay, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    r0 = subprocess.run(['bash', lay + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    r1 = subprocess.run(['bash', lay + '/demo.sh'], cwd=w, capture_output=True, text=True)
    msg = 'clean rc %d, planted rc %d' % (r0.returncode, r1.returncode)
    good = r0.returncode == 0 and r1.returncode not in (0, 3)
    if not good:
        msg += '\n' + (r0.stdout + r0.stderr)[-500:] + '\n--\n' + (r1.stdout + r1.stderr)[-500:]
    # stable tests still pass
    t = subprocess.run(['bash', '-c', "cat tests/Makefile >/dev/null 2>&1; true"], cwd=w)
    chk = subprocess.run([sys.executable, os.path.join(V, 'check.py'), bug['property']], env=dict(os.environ, NS_REPO=w, NS_EVID='/tmp/seed/ev-' + bug['id']), capture_output=True, text=True)
    msg += ' | check rc %d: %s' % (chk.returncode, ' / '.join(l for l in chk.stdout.splitlines() if l.startswith(('src', 'main', 'include', 'UNDEC')))[:200])
    shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(lay, ignore_errors=True)
    return bug['id'], ('OK  ' if good else 'FAIL ') + msg


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    bugs = [b for b in ns['BUGS'] if len(sys.argv) < 3 or b['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(6) as ex:
        for i, m in ex.map(build, bugs):
            print(i, m)
