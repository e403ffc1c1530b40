#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py and rules/table.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, V + '/tools')
from props import PROPS, NA
from rules.table import TABLE
T = 'path-sensitive static dataflow over the clang CFG (custom analyser)'
with open(V + '/properties.jsonl', 'w') as fh:
    for p in PROPS:
        q = {
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]},
        }
        assert len(p['title']) <= 80, p['id']
        fh.write(json.dumps(q) + '\n')
ids = [p['id'] for p in PROPS]
assert len(set(ids)) == len(ids)
for i in TABLE:
    assert i in ids, i
for i in ids:
    assert (i in TABLE) != (i in NA), i
m = {'version': 1, 'setup_cmd': 'bash extractor/build.sh', 'checks': [], 'not_applicable': [{'property': i, 'reason': NA[i]} for i in ids if i in NA],
     'notes': 'Static analysis only: nothing of /repo is executed and no solver is used. See DESIGN.md.'}
for i in ids:
    if i in TABLE:
        e = TABLE[i]
        m['checks'].append({
            'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
            'technique': e.get('technique', T), 'level': 'other',
            'level_note': 'Decides the stated rule on every path of the analysed functions of the current source. ' + e['rule'] +
                          (' Assumes: ' + '; '.join(e['assumes']) + '.' if e.get('assumes') else '') +
                          ' Trusts clang\'s parser and CFG, and the analyser in nslib/.'})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not applicable')

import glob, re
d = open(V + '/DESIGN.md').read()
def sec(name, text):
    global d
    d = re.sub('<!--%s-->.*?<!--/%s-->' % (name, name), lambda m: '<!--%s-->\n%s\n<!--/%s-->' % (name, text, name), d, flags=re.S)
out = []
for p in PROPS:
    if p['id'] in TABLE:
        e = TABLE[p['id']]
        out.append('### %s %s\n\n%s\n\n*Rule* (`rules/%s.py`): %s  \n*Anchors*: %s.  \n*Assumes*: %s.' % (
            p['id'], p['title'], p['statement'], e['rules'][0][0], e['rule'], '; '.join('%s (%s)' % (b, a) for a, b in p['mech']), '; '.join(e.get('assumes', ['nothing more']))))
sec('PROPS', '\n\n'.join(out))
rows = ['| planted bug | caught by | what it breaks |', '|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    x = json.load(open(f))
    rows.append('| %s | %s | %s |' % (f.split('/')[-2], x['property'], x['what_it_breaks'].replace('|', '/')))
sec('SEEDS', '\n'.join(rows))
sec('NA', '\n'.join('* **%s** %s: %s' % (p['id'], p['title'], NA[p['id']]) for p in PROPS if p['id'] in NA) or 'none')
open(V + '/DESIGN.md', 'w').write(d)
