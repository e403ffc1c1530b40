import sys; sys.path.insert(0,'/verif')
from nslib import ir,effects,spec
from nslib.absint import pp
from rules.solver import *
import rules.solver as rs
unit,q,j,mode=sys.argv[1:5]
P=ir.load(['src/solver/'+u for u in unit.split(',')]+['src/utils/heap.cpp','src/utils/bitset.cpp']); E=effects.Effects(P)
R=Sol(P); f=P.fn(REC+'::'+q)[int(j)]
heads={}
class D(SC):
    def loophead(self,eng,st,fn,blk,ctx):
        heads.setdefault((ctx,fn.qn,blk),[]).append(st.copy())
C=D(R,mode=mode,proof=False,tracker=False); C.max_states=int(sys.argv[5]) if len(sys.argv)>5 else 1500
try: spec.analyse(P,E,C,f,setup=C.setup)
except Exception as e: print(e)
for k,sts in heads.items():
    print(k,len(sts))
    for comp in ('env','store','facts','tmp','ep','ver'):
        vals={}
        for s in sts:
            for kk,v in getattr(s,comp).items(): vals.setdefault(kk,set()).add(v)
        allk=[kk for kk in vals if len(vals[kk])>1 or any(kk not in getattr(s,comp) for s in sts)]
        for kk in allk[:8]: print('   ',comp,pp(kk)[:120] if type(kk) is tuple else kk,[pp(x)[:80] if type(x) is tuple else x for x in list(vals[kk])[:3]])
    cl={s.cl for s in sts}; print('   cl',len(cl))
