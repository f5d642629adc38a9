import sys,time; sys.path.insert(0,'/verif/lib')
from facts import *; from interp import *; import domain
F=Facts('/verif/build/facts/url_cleaner-lib.json')
typ,meth=sys.argv[1],sys.argv[2]; only=sys.argv[3:]
b=F.method(typ,meth)
adt=F.adt(typ)
argn={'satisfied_by':{'StringMatcher':['self','hay','ts'],'CharMatcher':['self','c'],'StringLocation':['self','hay','needle']}.get(typ,['self','ts']),'apply':['self','to','ts'] if typ=='StringModification' else ['self','ts']}.get(meth,['self','ts'])
import re
for v in adt['variants']:
    if only and v['n'] not in only: continue
    I=Interp(F,events=domain.events(),opaque=domain.opaque(__import__('os').environ.get('OPQ','').split()),models=domain.MODELS)
    t0=time.time()
    try: res=I.run(b,[tok(x) for x in argn],facts={'self':v['n']})
    except Budget as e: print('##',v['n'],'BUDGET',e); continue
    print('##',v['n'],len(res),'paths',f'{time.time()-t0:.2f}s', 'cuts',I.cuts)
    if only or len(res)<=6:
        for s,rv in res[:40]:
            fs={k:x for k,x in s.facts.items() if k!='self' and not k.startswith('iv:')}
            mem={k[1]:I.render(s,x) for k,x in s.mem.items() if k[0]=='T' and not k[1].endswith('.Ok.0')}
            o='    '+str(list(s.events))+'|'+str(fs)+'| mem '+str(mem)+' => '+I.render(s,rv)
            o=re.sub(r"\{cache=ts.cache,common_args=ts.common_args,commons=ts.commons,context=ts.context,job_context=ts.job_context,params=ts.params,scratchpad=(ts.scratchpad('\d)?),url=(ts.url('\d)?)\}",r'{\1,\3}',o)
            print(o[:900])
