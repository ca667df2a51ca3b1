"""Writes properties.jsonl and MANIFEST.json from the one table in meta/table.py."""
import importlib.util
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('table', os.path.join(VERIF, 'meta', 'table.py'))
T = importlib.util.module_from_spec(spec)
spec.loader.exec_module(T)

props, checks, na = [], [], []
for p in T.PROPERTIES:
    assert len(p['title']) <= 80, p['id']
    for f in p['files'] + [w.split(':')[0] for _, w in p['mech']]:
        assert os.path.exists('/repo/' + f), f
    props.append({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                  'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
                  'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                              'observe_at': p['observe']}})
    if os.path.exists(os.path.join(VERIF, 'checks', p['id'].lower() + '.py')):
        cmd = '/opt/venv/bin/python vlib/runner.py %s --tier %s'
        checks.append({'property': p['id'], 'quick_cmd': cmd % (p['id'], 'quick'), 'thorough_cmd': cmd % (p['id'], 'thorough'),
                       'technique': p['technique'], 'level': p.get('level', 'exploration'), 'level_note': p['note']})
    else:
        na.append({'property': p['id'], 'reason': 'the monitor is not built yet'})
na += T.NOT_APPLICABLE
with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': T.SETUP, 'checks': checks, 'not_applicable': na, 'notes': T.NOTES}, f, indent=1)
print(len(props), 'properties', len(checks), 'checks')
