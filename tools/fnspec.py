"""fnspec.py MODULE LIST [FILTER]: replay a list of (path, args, spec[, look]) and print mismatches."""
import sys; sys.path.insert(0,'/verif/lib'); sys.setrecursionlimit(20000)
import importlib
from facts import Facts; from runner import Report, engine, replay_paths
import props
F=Facts('/verif/build/facts/url_cleaner-lib.json')
m=importlib.import_module(sys.argv[1]); flt=sys.argv[3] if len(sys.argv)>3 else ''
for e in getattr(m,sys.argv[2]):
    if flt not in e[0]: continue
    rep=Report('X'); p,a,s=e[:3]; look=list(e[3]) if len(e)>3 else []
    props.fn_spec(rep,F,p,a,s,look=look+['::'.join(p.split('::')[-2:])],roots={'self':'self'} if a and a[0]=='self' and 'set_' in p else None)
    print(p.split('::')[-1], rep.counts.get('paths'), 'ok' if not rep.violations else '')
    for v in rep.violations: print('   ', v['what'][:700])
