"""part.py get|set [VARIANTS]: replay the URL part specifications."""
import sys; sys.path.insert(0,'/verif/lib'); sys.setrecursionlimit(20000)
from facts import Facts; from interp import tok; from runner import Report; import props
F=Facts('/verif/build/facts/url_cleaner-lib.json')
rep=Report('X'); props.url_part(rep,F,sys.argv[1],sys.argv[2:] or None)
print(rep.counts); [print(v['what'][:900]) for v in rep.violations]
