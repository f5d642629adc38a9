#!/usr/bin/env python3
"""Plant a bug: validates it in a scratch copy of /repo and stores it in /verif/seeded/<id>/.  Usage: mkseed.py FILE.py [IDS] where FILE.py defines SEEDS =
{id: dict(property, needs, breaks, edits=[(file, old, new)], demo=shell text (after BIN=...), files={name: text})}."""
import json, os, subprocess, sys, shutil, runpy
SC = '/tmp/seedrepo/repo'
def sh(c, cwd=None, t=900, **k): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, **k)
SEEDS = runpy.run_path(sys.argv[1])['SEEDS']; ids = sys.argv[2:] or list(SEEDS)
ENV = {**os.environ, 'PATH': os.environ['HOME'] + '/.cargo/bin:' + os.environ['PATH'], 'RUSTUP_TOOLCHAIN': 'stable-x86_64-unknown-linux-gnu', 'CARGO_NET_OFFLINE': 'true', 'CARGO_INCREMENTAL': '1', 'CARGO_PROFILE_DEV_DEBUG': 'line-tables-only', 'CARGO_TARGET_DIR': SC + '/target'}
ARGS = '--workspace --offline --locked --features commands,custom'
if not os.path.isdir(SC):
    os.makedirs('/tmp/seedrepo', exist_ok=True); sh(f'cp -a /repo {SC}')
for i in ids:
    s = SEEDS[i]; d = f'/verif/seeded/{i}'
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', SC)
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0 when the behaviour is right\nd=$(cd "$(dirname "$0")" && pwd)\nBIN=target/debug/url-cleaner\nexport TMP_D=$(mktemp -d); trap \'/bin/rm -rf "$TMP_D"\' EXIT\nchk() { if [ "$2" != "$3" ]; then echo "$1: expected [$3] got [$2]"; exit 1; fi; }\n' + s['demo'].strip() + '\nexit 0\n')
    os.chmod(d + '/demo.sh', 0o755)
    for n, t in s.get('files', {}).items(): open(f'{d}/{n}', 'w').write(t if isinstance(t, str) else json.dumps(t, indent=1))
    r = sh(f'cargo build {ARGS}', SC, env=ENV)
    r0 = sh(f'bash {d}/demo.sh', SC, 300)
    if r0.returncode: print(i, 'FAIL: demo fails unpatched', r0.stdout[-600:], r0.stderr[-600:]); continue
    ok = True
    for f, o, n in s['edits']:
        p = f'{SC}/{f}'; t = open(p).read()
        if t.count(o) != 1: print(i, 'FAIL: edit matches', t.count(o), 'times:', o[:80]); ok = False; break
        open(p, 'w').write(t.replace(o, n))
    if not ok: continue
    df = sh('git diff', SC).stdout; open(d + '/patch.diff', 'w').write(df)
    r = sh(f'cargo build {ARGS} && cargo test {ARGS} --no-run', SC, env=ENV)
    if r.returncode: print(i, 'FAIL: build', r.stderr[-1500:]); continue
    r1 = sh(f'bash {d}/demo.sh', SC, 300)
    if r1.returncode == 0: print(i, 'FAIL: demo passes with the patch'); continue
    r = sh(f'cargo test {ARGS} --no-fail-fast 2>&1 | grep -E "^test .* FAILED|panicked" | head -5', SC, env=ENV)
    bad = [l for l in r.stdout.splitlines() if 'FAILED' in l]
    base = set(json.load(open('/opt/vp/BASELINE.json')) if False else [])
    if bad: print(i, 'NOTE failing tests:', bad)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    a = sh(f'git apply {d}/patch.diff', '/repo')
    try:
        c = sh(f'python3 check.py {s["property"]}', '/verif')
    finally: sh('git checkout -- .', '/repo')
    v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
    print(i, 'ok' if not bad else 'TESTS-FAIL', '| demo:', r1.stdout.strip()[-160:], '| check rc', c.returncode, 'CAUGHT' if v and c.returncode == 1 else 'MISSED', '|', [l.strip()[:260] for l in c.stdout.splitlines() if l.startswith('  ')][:2], c.stderr[-300:] if c.returncode not in (0, 1) else '')
