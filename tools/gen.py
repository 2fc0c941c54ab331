"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props   # noqa
ROOT = os.path.dirname(HERE)

lines, checks, na = [], [], []
for p in props.PROPS:
    lines.append(json.dumps({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['text']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'],
                    'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                    'observe_at': p.get('observe', 'public API and wire traffic'),
                    'hook_needed': False}}))
    assert len(p['title']) <= 80, p['id']
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    assert os.path.exists(os.path.join(ROOT, 'mc', 'checks', p['id'].lower() + '.py')), p['id']
    checks.append({'property': p['id'],
                   'quick_cmd': './run.sh %s quick' % p['id'],
                   'thorough_cmd': './run.sh %s thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
open(os.path.join(ROOT, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
man = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
       'notes': 'No hooks in /repo: all instrumentation is applied by an import hook in /verif.'}
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(lines), 'properties', len(checks), 'checks', len(na), 'n/a')
