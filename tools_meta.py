"""Writes properties.jsonl and MANIFEST.json from meta/props.py (one place for both)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from meta.props import PROPS, CHECKS, NOT_APPLICABLE

PY = '/opt/venv/bin/python -W ignore run.py'
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
ids = {p['id'] for p in PROPS}
m = {'version': 1, 'setup_cmd': f'{PY} --selftest',
     'checks': [dict({'property': i, 'quick_cmd': f'{PY} {i} --tier quick', 'thorough_cmd': f'{PY} {i} --tier thorough',
                      'evidence_file': f'evidence/{i}.json'}, **c) for i, c in CHECKS.items()],
     'not_applicable': [{'property': i, 'reason': NOT_APPLICABLE.get(i, 'no check built yet')} for i in sorted(ids - set(CHECKS))]}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
import jsonschema
ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in PROPS:
    jsonschema.validate(p, ps)
    assert p['statement'].count('. ') <= 2, p['id']
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(PROPS), 'properties', len(CHECKS), 'checks')
