import sys,time; sys.path.insert(0,'/verif/lib')
from facts import *; from interp import *; import domain, spec, importlib
F=Facts('/verif/build/facts/url_cleaner-lib.json')
mod=importlib.import_module(sys.argv[1]); typ,meth,tab=sys.argv[2:5]; only=sys.argv[5:]
T=getattr(mod,tab); b=F.method(typ,meth); adt=F.adt(typ)
argn={'StringMatcher':['self','hay','ts'],'CharMatcher':['self','c'],'StringLocation':['self','hay','needle'],'StringModification':['self','to','ts']}.get(typ,['self','ts'])
vs=[v['n'] for v in adt['variants']]
print('MISSING',[v for v in vs if v not in T],'EXTRA',[v for v in T if v not in vs])
for v in vs:
    if only and v not in only or v not in T: continue
    I=Interp(F,events=domain.events(),opaque=domain.opaque(),models=domain.MODELS,budget=400000)
    t0=time.time()
    try: res=I.run(b,[tok(x) for x in argn],facts={'self':v})
    except Budget as e: print('##',v,'BUDGET',e); continue
    bad=0
    for s,rv in res:
        roots={'to':'to'} if typ=='StringModification' else {'url':'ts.url','scratchpad':'ts.scratchpad'} if meth=='apply' else {}
        def setup(c,roots=roots): c.st_roots=roots
        m=spec.replay(I,s,rv,T[v],setup)
        if m:
            bad+=1
            if bad<=(4 if only else 1): print('  BAD',v,m[:600]); print('     ',spec.describe(s)[:900 if only else 500], '=>', I.render(s,rv)[:200])
    print('##',v,len(res),'paths',bad,'bad',f'{time.time()-t0:.2f}s') if bad or only else None
