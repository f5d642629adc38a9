"""brief.py TYPE METHOD [VARIANT..]: the successful path with most facts, and the final value of each argument state."""
import sys,re; sys.path.insert(0,'/verif/lib')
from facts import *; from interp import *; import domain
from runner import ARGS
F=Facts('/verif/build/facts/url_cleaner-lib.json')
typ,meth=sys.argv[1],sys.argv[2]; only=sys.argv[3:]; N=int(__import__('os').environ.get('N','1'))
b=F.method(typ,meth); adt=F.adt(typ)
argn=ARGS.get((typ,meth),['self','ts'])
def sh(x):
    for v in ('StringSource::get','StringMatcher::satisfied_by','StringModification::apply','StringLocation::satisfied_by'): x=x.replace(v+'#',v[6:9]+'#')
    x=re.sub(r"(\w{3}#\d+)\.Ok\.0(\.Some\.0)?",lambda m:m.group(1)+('!' if m.group(2) else '?'),x)
    return re.sub(r"self\.\w+\.","s.",x)
for v in adt['variants']:
    if only and v['n'] not in only: continue
    I=Interp(F,events=domain.events(),opaque=domain.opaque(),models=domain.MODELS)
    try: res=I.run(b,[tok(x) for x in argn],facts={'self':v['n']})
    except Budget as e: print('##',v['n'],'BUDGET',e); continue
    print('##',v['n'],len(res),'cuts',I.cuts)
    for s,rv in sorted(res,key=lambda x:(I.render(*x).startswith('Err'),-len(x[0].facts)))[:N]:
        fs=';'.join(f"{sh(k)}={x}" for k,x in s.facts.items() if k!='self' and not k.startswith(('iv:','¬')) and not re.match(r'^\w+::\w+#\d+(\.Ok\.0)?$',k))
        print('  ',fs[:500],'| to=',sh(I.render(s,tok(argn[1])))[:300],'=>',sh(I.render(s,rv))[:200])
