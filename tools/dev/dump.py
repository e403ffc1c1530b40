import sys; sys.path.insert(0,'/verif')
from nslib import ir,effects,spec
from nslib.absint import pp
units=sys.argv[1].split(','); 
P=ir.load(units); E=effects.Effects(P)
vecs=sys.argv[2].split(',') if sys.argv[2] else ()
for q in sys.argv[3:]:
    for f in P.fn(q):
        print('=====',f.qn,f.where(),[p['t'] for p in f.params])
        C=spec.VecClient(); C.vecs=vecs
        try: eng,outs=spec.analyse(P,E,C,f)
        except Exception as e:
            print('  EXC',type(e).__name__,str(e)[:200]); continue
        for st,v in outs[:8]:
            print('  ret',pp(v)[:300]); 
            for k,x in st.facts.items(): print('     fact',pp(k)[:200],x)
            for e in st.cl[0]: print('     ev',[pp(y)[:120] for y in e])
            for k,x in st.store.items():
                if k[0]!='L': print('     store',pp(k)[:150],'=',pp(x)[:150])
        print('  n=',len(outs))
