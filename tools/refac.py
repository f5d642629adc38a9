#!/usr/bin/env python3
"""Behaviour-preserving edits: refac.py FILE.py [SETS] applies each set of edits {name: [(file, old, new)..]} to a scratch copy of /repo and runs every check on it (from a scratch copy of /verif): all must stay quiet."""
import json, os, subprocess, sys, shutil, runpy
from concurrent.futures import ThreadPoolExecutor
B = '/tmp/rf'; R = B + '/repo'; V = B + '/verif'
def sh(c, cwd=None, t=900, **k): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, **k)
D = runpy.run_path(sys.argv[1]); sets = D['SETS']; names = [a for a in sys.argv[2:] if not a.startswith('C')] or list(sets); only = [a for a in sys.argv[2:] if a.startswith('C')]
os.makedirs(B, exist_ok=True)
if not os.path.isdir(R): sh(f'git clone -q /repo {R}')
if not os.path.isdir(V): os.makedirs(V + '/build'); sh(f'cp -a /verif/build/target /verif/build/facts-driver {V}/build/')
sh(f'cp -a /verif/lib /verif/driver /verif/build.sh /verif/check.py /verif/known-findings.json {V}/'); os.makedirs(V + '/evidence', exist_ok=True)
for n in names:
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', R); bad = False
    for f, o, w in sets[n]:
        p = f'{R}/{f}'; t = open(p).read()
        if t.count(o) != 1: print(n, 'edit matches', t.count(o), 'times:', f, o[:90]); bad = True; continue
        open(p, 'w').write(t.replace(o, w))
    env = {**os.environ, 'REPO_DIR': R}
    r = sh('python3 check.py --setup', V, env=env)
    if r.returncode: print(n, 'COMPILE', (r.stdout + r.stderr)[-2500:]); continue
    ids = only or [c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
    def run(i):
        try: r = sh(f'python3 check.py {i}', V, env=env)
        except subprocess.TimeoutExpired: return i, 'TIMEOUT', ''
        return i, r.returncode, r.stdout + r.stderr
    q = 0
    with ThreadPoolExecutor(6) as ex:
        for i, rc, out in ex.map(run, ids):
            if rc == 0: q += 1
            else: print(n, i, 'rc', rc, '\n   '.join([''] + [l.strip()[:int(os.environ.get('W', 420))] for l in out.splitlines() if l.startswith('  ') or 'Error' in l][:int(os.environ.get('N', 4))]))
    print(n, 'quiet:', q, '/', len(ids))
