import sys; sys.path.insert(0,'/verif')
from nslib import ir,effects,spec
from nslib.absint import pp
from rules.solver import *
import time
kw={}
args=sys.argv[1:]
while args and '=' in args[0]:
    k,v=args.pop(0).split('='); kw[k]=eval(v)
unit=args.pop(0)
P=ir.load(['src/solver/'+u for u in unit.split(',')]+['src/utils/heap.cpp','src/utils/bitset.cpp']); E=effects.Effects(P)
R=Sol(P)
short=lambda s: s.replace('napsat::','').replace('NapSAT::','').replace('this._','_')
for q in args:
    nm,_,k=q.partition('#')
    for j,f in enumerate(P.fn(REC+'::'+nm)):
        if k and int(k)!=j: continue
        print('=====',f.qn,f.where(),[p['t'] for p in f.params])
        C=SC(R,**dict(dict(proof=False,tracker=False),**kw))
        t=time.time()
        try: eng,outs=spec.analyse(P,E,C,f,setup=C.setup)
        except Exception as e:
            import traceback; traceback.print_exc(); continue
        for st,v in outs[:6]:
            print('  ret',short(pp(v))[:200]); 
            for k2,x in st.facts.items(): print('     fact',short(pp(k2))[:160],x)
            for e in st.cl[0]: print('     ev',short(' '.join(pp(y)[:140] if type(y) is tuple and y and type(y[0]) is str else str([pp(z)[:70] if type(z) is tuple else z for z in y]) if type(y) is tuple else str(y) for y in e)))
        for k9,its in C.iters.items():
            print('  LOOP',k9,'entries',len(C.entries[k9]),'iters',len(its))
            for st,ev in its[:int(kw.get('ni',6))]:
                print('   iter'); seen=set()
                base=set(C.entries[k9][0].facts.items())
                for k2,x in st.facts.items():
                    if (k2,x) not in base: print('     fact',short(pp(k2))[:160],x)
                for e in ev: print('     ev',short(' '.join(pp(y)[:140] if type(y) is tuple and y and type(y[0]) is str else str([pp(z)[:70] if type(z) is tuple else z for z in y]) if type(y) is tuple else str(y) for y in e)))
        print('  n=',len(outs),'steps',eng.steps,'%.1fs'%(time.time()-t))
