"""mut.py MODULE FUNCS UNITS SPEC.py : SPEC defines M=[(name, expect('bad'|'ok'), [(file,old,new),...])]"""
import sys,os,subprocess,shutil
mod,funcs,units,spec=sys.argv[1:5]
only=sys.argv[5:]; BASE=os.environ.get('MUT_BASE','/repo')
ns={}; exec(open(spec).read(),ns)
code='''
import sys; sys.path.insert(0,'/verif')
from nslib import ir,effects,spec
import importlib
m=importlib.import_module(%r)
u=%r
P=ir.load(u.split(',') if u!='all' else None); E=effects.Effects(P)
import collections
for nm in %r.split(','):
    rep=spec.Report(nm)
    try:
        getattr(m,nm)(P,E,rep)
    except ir.AnalysisError as e: print(nm,'ANALYSIS',e); continue
    c=collections.Counter(o['status'] for o in rep.obl)
    print(nm,dict(c))
    for o in rep.obl:
        if o['status']!='discharged': print('   ',o['status'],o['rule'],o['where'],o['detail'][:200])
'''%(mod,units,funcs)
def one(m):
    name,exp,eds=m
    d='/tmp/mr/'+name
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.run(['cp','-a',BASE+'/src',BASE+'/include',d+'/'],check=False)
    subprocess.run('cp -a %s/[a-zA-Z]* %s/ 2>/dev/null'%(BASE,d),shell=True)
    for f,o,n in eds:
        s=open(d+'/'+f).read()
        if s.count(o)<1: return name,'EDIT-FAIL '+o[:50]
        open(d+'/'+f,'w').write(s.replace(o,n,1))
    e=dict(os.environ,NS_REPO=d)
    r=subprocess.run([sys.executable,'-c',code],env=e,capture_output=True,text=True)
    shutil.rmtree(d,ignore_errors=True)
    t=r.stdout+r.stderr[-600:]
    got='bad' if 'violated' in r.stdout else 'ok'
    if r.returncode or 'ANALYSIS' in r.stdout: got='err'
    return name,('' if got==exp else '!!! expected %s got %s\n'%(exp,got))+(t if got!=exp or '-v' in only else ' '.join(l.strip()[:110] for l in t.splitlines() if 'violated' in l or 'undecided' in l)[:260])
from concurrent.futures import ThreadPoolExecutor
ms=[m for m in ns['M'] if not [x for x in only if x!='-v'] or m[0] in only]
with ThreadPoolExecutor(8) as ex:
    for n,t in ex.map(one,ms): print('##',n,':',t)
