"""Write MANIFEST.json from the property modules."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = ['/repo', HERE]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    try:
        m = importlib.import_module('props.' + pid.lower())
    except ModuleNotFoundError as e:
        if not str(e.name).startswith('props'):
            raise
        na.append(dict(property=pid, reason='no check built yet'))
        continue
    if getattr(m, 'NOT_APPLICABLE', None):
        na.append(dict(property=pid, reason=m.NOT_APPLICABLE))
        continue
    checks.append(dict(
        property=pid,
        quick_cmd='/opt/venv/bin/python check.py {} --tier quick'.format(pid),
        thorough_cmd='/opt/venv/bin/python check.py {} --tier thorough'.format(
            pid),
        evidence_file='evidence/{}.json'.format(pid),
        technique=getattr(m, 'TECHNIQUE',
                          'contracts on the real functions, obligations '
                          'discharged by z3; bounded replay'),
        level=getattr(m, 'LEVEL', 'proof'),
        level_note=getattr(m, 'LEVEL_NOTE', m.EXPLANATION)))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup.py',
               checks=checks, not_applicable=na),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
