"""fn.py PATHSUFFIX ARG.. : every path of a function. OPQ=labels kept opaque additionally, DROP=labels inlined although opaque by default"""
import sys,re,os; sys.path.insert(0,'/verif/lib')
from facts import *; from interp import *; import domain
F=Facts(f"/verif/build/facts/url_cleaner-{os.environ.get('K','lib')}.json")
p=sys.argv[1]; c=[b for b in F.local if b['path'].endswith(p)]
if len(c)!=1 and not os.environ.get('IX'): print([b['path'] for b in c][:10]); sys.exit()
b=c[int(os.environ.get('IX','0'))]; args=sys.argv[2:] or ['a%d'%i for i in range(b['argc'])]
drop=set(os.environ.get('DROP','').split()); base=domain.opaque(os.environ.get('OPQ','').split())
I=Interp(F,events=domain.events(extra=os.environ.get('EV','').split(),drop=drop),opaque=lambda c: domain.label(c) not in drop and base(c),models={**domain.MODELS,**(getattr(__import__('colls'),os.environ['COLLS']) if os.environ.get('COLLS') else {})},maxlen=int(os.environ.get('L','3')),budget=int(os.environ.get('B','60000')))
res=I.run(b,[tok(x) for x in args],facts=dict((x.split('=')[0],{'True':True,'False':False}.get(x.split('=')[1],x.split('=')[1])) for x in os.environ.get('FACTS','').split()))
n=0
for s,rv in res:
    n+=1
    if n>int(os.environ.get('N','12')): continue
    fs=';'.join(f"{k}={x}" for k,x in s.facts.items() if not k.startswith(('iv:','¬')))
    mem={k[1]:I.render(s,x) for k,x in s.mem.items() if k[0]=='T' and not k[1].endswith('.Ok.0')}
    print('-',fs[:int(os.environ.get('W','400'))],'| ev',[str(e)[:150] for e in s.events],'| mem',str(mem)[:int(os.environ.get('W','400'))],'=>',I.render(s,rv)[:300])
print(n,'paths cuts',I.cuts)
