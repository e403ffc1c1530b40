#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]  -- decide one property from /repo's current source.

exit 0: no violation; exit 1: VIOLATION line(s); exit 2: the analysis is broken (missing anchor, unparsable source)."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from nslib import ir, effects, spec          # noqa: E402
from rules.table import TABLE               # noqa: E402


def known(pid):
    """entries of KNOWN_FINDINGS.txt for this property: (function name, rule, text of the detail)"""
    out = []
    for l in open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')):
        if l.startswith('known: property=%s ' % pid):
            p = dict(x.split('=', 1) for x in l[len('known: '):].split(' | ')[0].split() if '=' in x)
            out.append((p['rule'], p['at'], l.split(' | ', 1)[1].strip()))
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    ent = TABLE[pid]
    evdir = os.environ.get('NS_EVID') or os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    rep = spec.Report(pid)
    rep.tier = tier
    modes = [False] + ([True] if tier == 'thorough' and ent.get('debug') else [])
    summary = []
    for dbg in modes:
        P = ir.load(ent['units'], debug=dbg)
        E = effects.Effects(P)
        for m, fn in ent['rules']:
            n0 = len(rep.obl)
            with rep.guard(m + '.' + fn):
                getattr(importlib.import_module('rules.' + m), fn)(P, E, rep)
            summary.append({'rule': m + '.' + fn, 'obligations': len(rep.obl) - n0, 'asserts_compiled_in': dbg})
    nd = sum(o['status'] == spec.OK for o in rep.obl)
    und = [o for o in rep.obl if o['status'] == spec.UND]
    bad, seen = [], set()
    for o in rep.violations():
        k = (o['rule'], o['where'], o['detail'])
        if k not in seen:
            seen.add(k)
            bad.append(o)
    kn, new, hit = known(pid), [], {}
    for o in bad:
        for r, at, txt in kn:
            if o['rule'] == r and at in (o['where'], o['where'].split(':')[0]) and txt in o['detail']:
                hit[(r, at, txt)] = o
                break
        else:
            new.append(o)
    for (r, at, txt), o in hit.items():
        print('KNOWN-FINDING: property=%s %s %s: %s' % (pid, o['where'], r, o['detail']))
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
        'coverage': {
            'explanation': ent['rule'],
            'units_analysed': ent['units'] or 'all translation units of src/',
            'functions_analysed': sorted(rep.funcs),
            'paths': rep.paths, 'abstract_states': rep.states, 'obligations_checked': len(rep.obl),
            'obligations_discharged': nd,
            'obligations_undecided': [{k: o[k] for k in ('rule', 'where', 'detail')} for o in und],
            'rules': summary,
            'known_findings_seen': len(hit),
            'obligation_sample': [{k: o[k] for k in ('rule', 'where', 'status')} for o in rep.obl[:40]],
        },
        'assumptions': ent.get('assumes', []),
        'violations': len(new), 'wall_s': round(time.time() - t0, 2),
    }
    json.dump(ev, open(os.path.join(evdir, pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d violated (%d functions, %d paths)' % (
        pid, len(rep.obl), nd, len(und), len(bad), len(rep.funcs), rep.paths))
    for o in und:
        print('UNDECIDED %s %s: %s' % (o['where'], o['rule'], o['detail']))
    if new:
        rp = os.path.join(evdir, pid + '.violations.txt')
        with open(rp, 'w') as fh:
            for o in new:
                fh.write('%s\t%s\t%s\n' % (o['where'], o['rule'], o['detail']))
        for o in new:
            print('%s: [%s] %s' % (o['where'], o['rule'], o['detail']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if nd == 0 and not hit:
        print('analysis broken: no obligation of %s could be decided' % pid)
        return 2
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except ir.AnalysisError as e:
        print('analysis broken: %s' % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
