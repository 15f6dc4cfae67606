""" Writes properties.jsonl and MANIFEST.json from tools/properties.py. """
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from properties import HOOKS, NOT_APPLICABLE, PROPERTIES  # noqa

for p in PROPERTIES:
    p['anchors'] = {'files': p['anchors']['files'], 'mechanism': [{'name': p['anchors']['mechanism'],
                                                                   'where': ', '.join(p['anchors']['files'])}]}
    for f in p['anchors']['files']:
        assert os.path.exists(os.path.join('/repo', f)), f
    assert len(p['title']) <= 80, p['title']
    assert p['statement'].count('. ') <= 2, p['id']
PROPERTIES.sort(key=lambda p: p['id'])

with open(os.path.join(VERIF, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p in PROPERTIES:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')})
                + '\n')
checks = []
for p in PROPERTIES:
    if p['id'] in NOT_APPLICABLE:
        continue
    assert os.path.exists(os.path.join(VERIF, 'checks', p['id'].lower() + '.py')), p['id']
    checks.append({'property': p['id'], 'quick_cmd': f'python3 checks/run.py {p["id"]} quick',
                   'thorough_cmd': f'python3 checks/run.py {p["id"]} thorough', 'technique': p['technique'],
                   'level': 'model_checking', 'level_note': p['note']})
manifest = {'version': 1, 'setup_cmd': 'python3 checks/run.py --setup', 'checks': checks, 'hooks': HOOKS,
            'not_applicable': [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items()]}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
try:
    import jsonschema
    for line in open(os.path.join(VERIF, 'properties.jsonl'), encoding='utf-8'):
        jsonschema.validate(json.loads(line), json.load(open('/root/.vp/PROPERTIES.schema.json', encoding='utf-8')))
    jsonschema.validate(manifest, json.load(open('/root/.vp/MANIFEST.schema.json', encoding='utf-8')))
    print('valid', len(PROPERTIES), 'properties', len(checks), 'checks')
except ImportError:
    print('written (not validated)')
