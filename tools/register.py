#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and known_findings.json from tools/spec.py (nothing reads this at check time)."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import spec  # noqa

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in spec.PROPERTIES:
        q = dict(p)
        q.pop('level_note', None)
        f.write(json.dumps(q, ensure_ascii=False) + '\n')
for p in spec.PROPERTIES:
    for f in p['anchors']['files']:
        assert os.path.exists(os.path.join('/repo', f)), (p['id'], f)
checks = []
for p in spec.PROPERTIES:
    if p['id'] in spec.NA:
        continue
    i = p['id']
    checks.append({'property': i, 'quick_cmd': f'python3 check.py {i} --tier quick', 'thorough_cmd': f'python3 check.py {i} --tier thorough',
                   'evidence_file': f'evidence/{i}.json', 'technique': 'deterministic simulation with fault injection',
                   'level': 'exploration', 'level_note': p['level_note']})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
     'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in spec.NA.items()], 'notes': spec.NOTES}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
find = []
for line in log:
    h, s = line.split(' ', 1)
    if s.startswith('fix: '):
        pid, what = spec.FIXED[s[5:]]
        find.append({'property': pid, 'status': 'fixed', 'commit': h, 'what': what, 'line': f'fixed: property={pid} {h} {what}'})
for pid, what, match in spec.KNOWN:
    find.append({'property': pid, 'status': 'known', 'what': what, 'match': match})
with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
    json.dump({'findings': list(reversed(find))}, f, indent=1, ensure_ascii=False)
    f.write('\n')
try:
    import jsonschema
    s = json.load(open('/root/.vp/MANIFEST.schema.json'))
    jsonschema.validate(m, s)
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        jsonschema.validate(json.loads(l), s)
    print('valid')
except ImportError:
    print('not validated')
