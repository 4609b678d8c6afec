"""Writes MANIFEST.json from harness/registry.py and the claim notes below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'harness'))
from registry import REGISTRY
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(here, 'tools', 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i in REGISTRY:
        n = NOTES.get(i, {})
        models = REGISTRY[i].get('models', [])
        checks.append(dict(property=i, quick_cmd='VERIF_TIER=quick python3 check.py %s' % i,
                           thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique=n.get('technique', 'TLA+ specification checked with TLC; its behaviours replayed into the library and recorded traces validated against it'),
                           level='model_checking', level_note=n.get('note', REGISTRY[i].get('rule', ''))))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, {}).get('na', 'not built yet')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
