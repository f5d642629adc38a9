#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/meta.py."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, 'lib'))
from meta import P, NA
import props
with open(os.path.join(root, 'properties.jsonl'), 'w') as fh:
    for pid in sorted(P):
        p = P[pid]
        assert len(p['title']) <= 80, (pid, len(p['title']))
        fh.write(json.dumps({'id': pid, 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}, ensure_ascii=False) + '\n')
checks = [{'property': pid, 'quick_cmd': f'python3 check.py {pid}', 'thorough_cmd': f'python3 check.py {pid} --thorough', 'technique': P[pid]['technique'], 'level': P[pid]['level'], 'level_note': P[pid]['note']}
          for pid in sorted(P) if pid in props.PROPS]
na = [{'property': pid, 'reason': r} for pid, r in sorted(NA.items())] + [{'property': pid, 'reason': 'check not built yet'} for pid in sorted(P) if pid not in props.PROPS and pid not in NA]
json.dump({'version': 1, 'setup_cmd': 'bash build.sh && python3 check.py --setup', 'checks': checks, 'not_applicable': na}, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks', len(na), 'n/a')
