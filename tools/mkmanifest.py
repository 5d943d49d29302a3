"""Writes /verif/MANIFEST.json: every property whose driver exists is claimed."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from notes import NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, 'harness', 'checks', i.lower() + '.py')):
        tech, note = NOTES[i]
        checks.append(dict(property=i, quick_cmd='./check ' + i, thorough_cmd='./check %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=tech, level='model_checking', level_note=note))
    else: na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='TLA+ specification in spec/ (TLC); conformance of the real code by trace validation. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
