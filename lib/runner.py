"""Produces fresh facts from /repo and runs one property's analysis over them."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
from facts import Facts, Missing
from interp import Interp, Budget, tok
import domain, spec

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO_DIR', '/repo')
BUILD = os.path.join(VERIF, 'build')
FEATURES = 'commands,custom'

class Unusable(Exception):
    """The tree could not be analysed (does not compile, driver missing): an error of the run, not a verdict."""

def source_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('target', '.git', 'node_modules'))
        for f in sorted(files):
            p = os.path.join(root, f)
            if os.path.islink(p) or not os.path.isfile(p): continue
            h.update(os.path.relpath(p, REPO).encode()); h.update(b'\0')
            with open(p, 'rb') as fh: h.update(hashlib.sha256(fh.read()).digest())
    with open(os.path.join(VERIF, 'driver', 'main.rs'), 'rb') as fh: h.update(fh.read())
    h.update(FEATURES.encode()); h.update(REPO.encode())
    return h.hexdigest()

def errs(t):
    """The error part of cargo's output."""
    i = t.find('error'); return (t[i:] if i >= 0 else t)[:1500]

def produce():
    """Compile /repo (lib, bin) under the facts driver; returns {crate kind: Facts}."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(['bash', os.path.join(VERIF, 'build.sh')], capture_output=True, text=True)
        if r.returncode: raise Unusable('driver does not build: ' + r.stderr[-2000:])
        fd = os.path.join(BUILD, 'facts'); tgt = os.path.join(BUILD, 'target'); stamp = os.path.join(fd, 'stamp')
        want = source_hash()
        libf, binf = os.path.join(fd, 'url_cleaner-lib.json'), os.path.join(fd, 'url_cleaner-bin.json')
        have = open(stamp).read() if os.path.exists(stamp) else ''
        if have != want or not (os.path.exists(libf) and os.path.exists(binf)):
            for p in (stamp, libf, binf):
                if os.path.exists(p): os.unlink(p)
            os.makedirs(fd, exist_ok=True)
            # make cargo rebuild the analysed package (both layouts of a build directory), so that the driver sees it
            for d in glob.glob(os.path.join(tgt, 'debug', '.fingerprint', 'url-cleaner*')) + glob.glob(os.path.join(tgt, 'debug', 'build', 'url-cleaner')) + glob.glob(os.path.join(tgt, 'debug', 'build', 'url-cleaner-*')):
                shutil.rmtree(d, ignore_errors=True)
            sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True).stdout.strip()
            env = dict(os.environ, RUSTC_ICE='0', FACTS_DIR=fd, RUSTC_WORKSPACE_WRAPPER=os.path.join(BUILD, 'facts-driver'), CARGO_TARGET_DIR=tgt,
                       LD_LIBRARY_PATH=sysroot + '/lib', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
            env.pop('RUSTFLAGS', None)
            r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--locked', '--workspace', '--features', FEATURES], cwd=REPO, env=env, capture_output=True, text=True)
            if r.returncode: raise Unusable('the tree does not compile: ' + errs(r.stderr))
            if not (os.path.exists(libf) and os.path.exists(binf)): raise Unusable('no facts were written: ' + errs(r.stderr))
            with open(stamp, 'w') as fh: fh.write(want)
        return {'lib': Facts(libf), 'bin': Facts(binf)}

class Report:
    """What a property's analysis found and what it covered."""
    def __init__(self, pid):
        self.pid = pid; self.violations = []; self.counts = {}; self.samples = []; self.notes = []; self.rules = []
        self.keys = set()
    def bad(self, key, msg, where=''):
        if key in self.keys: return
        self.keys.add(key); self.violations.append({'key': key, 'what': msg, 'where': where})
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def floor(self, k, n):
        if self.counts.get(k, 0) < n: self.bad(f"floor:{k}", f"only {self.counts.get(k, 0)} {k} analysed, {n} expected: the check would be vacuous")
    def sample(self, s):
        if len(self.samples) < 6: self.samples.append(s[:600])
    def note(self, s): self.notes.append(s)

ARGS = {('StringMatcher', 'satisfied_by'): ['self', 'hay', 'ts'], ('CharMatcher', 'satisfied_by'): ['self', 'c'], ('StringLocation', 'satisfied_by'): ['self', 'hay', 'needle'],
        ('StringModification', 'apply'): ['self', 'to', 'ts']}

def where(b): return f"{b['path']} ({b.get('sp', '')})" if b.get('sp') else b['path']

def replay_variants(rep, F, typ, meth, table, only=None, budget=400000, roots=None, events=None, opaque=None, models=None, maxlen=3, fallback=None, strict_new=True):
    """Every path of every variant of `typ::meth` must replay its specification."""
    b = F.method(typ, meth); adt = F.adt(typ)
    names = [v['n'] for v in adt['variants']]
    argn = ARGS.get((typ, meth), ['self', 'ts'])
    for n in (only or table):
        if n not in names and n not in ('Custom',): rep.bad(f"{typ}::{n}:missing", f"variant {typ}::{n} no longer exists"); 
    for v in names:
        if only is not None and v not in only: continue
        if v not in table:
            if strict_new and only is None: rep.note(f"variant {typ}::{v} has no specification (new?)")
            continue
        I = Interp(F, events=events or domain.events(), opaque=opaque or domain.opaque(), models=models or domain.MODELS, budget=budget, maxlen=maxlen)
        replay_paths(rep, F, I, b, argn, table[v], {'self': v}, f"{typ}::{v}", roots)

def engine(F, look=(), events=None, opaque=None, budget=400000, maxlen=3, models=None, also=(), **kw):
    """An interpreter; `look` names helpers that are normally opaque but are what is being analysed."""
    base = domain.opaque(opaque or ())
    return Interp(F, events=events or domain.events(extra=also, drop=look), opaque=lambda c: domain.label(c) not in look and base(c), models={**domain.MODELS, **(models or {})}, budget=budget, maxlen=maxlen, **kw)

def replay_paths(rep, F, I, b, argn, sp, facts, key, roots=None, min_paths=1):
    try: res = I.run(b, [tok(x) for x in argn], facts=dict(facts))
    except Budget as e:
        rep.bad(f"{key}:budget", f"{key}: the number of paths exceeds the analysis bound ({e})", b['path']); return
    except RecursionError:
        rep.bad(f"{key}:depth", f"{key}: call depth exceeds the analysis bound", b['path']); return
    replay_results(rep, I, res, b, sp, key, roots, min_paths)
def replay_results(rep, I, res, b, sp, key, roots=None, min_paths=1):
    rep.count('obligations'); rep.count('paths', len(res)); rep.count('steps', I.steps)
    rep.count('events', sum(len(s.events) for s, _ in res))
    rep.inlined = getattr(rep, 'inlined', set()) | {x for x in I.inlined if not x.startswith(('core::', 'alloc::', 'std::', '<core', '<alloc', '<std'))}
    if len(res) < min_paths: rep.bad(f"{key}:nopath", f"{key}: no path reaches a result", b['path'])
    if I.cuts: rep.count('cut_paths', I.cuts)
    msgs = []
    for s, rv in res:
        if s.cut: continue
        def setup(c, roots=roots): c.st_roots = roots or {}
        m = spec.replay(I, s, rv, sp, setup)
        if m: msgs.append((m, spec.describe(s), I.render(s, rv)[:300]))
    if msgs:
        msgs.sort(key=lambda x: len(x[1]))
        m, d, r = msgs[0]
        rep.bad(key, f"{key}: {m} -- on {d} returning {r} ({len(msgs)} of {len(res)} paths disagree)", where(b))
    elif res:
        s, rv = max(res, key=lambda x: len(x[0].events))
        rep.sample(f"{key}: {spec.describe(s)} => {I.render(s, rv)[:160]}")

def known_findings():
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p): return []
    return json.load(open(p))

def main(pid, fn, meta):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--thorough' in sys.argv: tier = 'thorough'
    sys.setrecursionlimit(20000)
    try: FX = produce()
    except Unusable as e:
        print(f"ERROR: {e}"); return 2
    t1 = time.time()
    rep = Report(pid)
    try: fn(rep, FX, tier)
    except Missing as e: rep.bad('anchor', f"an anchor of the analysis is gone: {e}")
    known = [k for k in known_findings() if k.get('property') == pid and k.get('status') == 'open']
    open_, listed = [], []
    for v in rep.violations:
        k = [x for x in known if x['key'] == v['key'] and (x.get('match') is None or x['match'] in v['what'])]
        (listed if k else open_).append(v)
    for v in listed: print(f"KNOWN-FINDING: property={pid} {v['key']}: {v['what'][:300]}")
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    inl = sorted(getattr(rep, 'inlined', ()))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': meta['level'],
          'coverage': {'explanation': meta['rule'], 'obligations': max(rep.counts.get('obligations', 0), 0), 'discharged': max(rep.counts.get('obligations', 0) - len(rep.violations), 0),
                       'counts': rep.counts, 'samples': rep.samples or [str(rep.counts)], 'notes': rep.notes[:40], 'local_functions_inlined': len(inl),
                       'bodies_loaded': {k: len(f.local) for k, f in FX.items()}},
          'assumptions': meta.get('assumptions', []), 'wall_s': round(time.time() - t0, 3), 'violations': len(open_)}
    if inl: ev['coverage']['functions'] = inl[:200]
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh: json.dump(ev, fh, indent=1)
    print(f"{pid} {tier}: " + ', '.join(f"{v} {k}" for k, v in sorted(rep.counts.items())) + f"; facts {t1 - t0:.1f}s, analysis {time.time() - t1:.1f}s")
    for n in rep.notes[:20]: print('note: ' + n)
    if open_:
        rp = os.path.join(VERIF, 'evidence', f"{pid}.violation.json")
        with open(rp, 'w') as fh: json.dump(open_, fh, indent=1)
        for v in open_[:20]: print(f"  {v['key']}: {v['what'][:1500]}" + (f"  [{v['where']}]" if v['where'] else ''))
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0
