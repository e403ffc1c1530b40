import sys; sys.path.insert(0,'/verif')
from nslib import ir,effects,spec
import importlib,collections
mod,fns,units=sys.argv[1:4]
m=importlib.import_module(mod if mod.startswith('rules.') else 'rules.'+mod)
P=ir.load(None if units=='all' else units.split(',')); E=effects.Effects(P)
for nm in fns.split(','):
    rep=spec.Report(nm); getattr(m,nm)(P,E,rep)
    print(nm,dict(collections.Counter(o['status'] for o in rep.obl)),rep.states)
    for o in rep.obl:
        if o['status']!='discharged': print('  ',o['status'],o['rule'],o['where'],o['detail'][:int(__import__('os').environ.get('W','300'))])
        elif len(sys.argv)>4: print('  ',o['rule'])
