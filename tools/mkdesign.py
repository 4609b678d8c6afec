"""Writes /verif/DESIGN.md from its hand-written parts, the registry, the properties and the planted bugs."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(R, 'harness'))
from registry import REGISTRY
here = lambda *a: os.path.join(R, *a)
props = {p['id']: p for p in map(json.loads, open(here('properties.jsonl')))}
how = json.load(open(here('tools', 'design_how.json')))
out = [open(here('tools', 'design_head.md')).read()]
for pid in sorted(REGISTRY):
    g, p = REGISTRY[pid], props[pid]
    out.append('### %s  %s\n' % (pid, p['title']))
    out.append(how[pid].strip() + '\n')
    models = ['`%s`%s' % (m['cfg'][:-4], ' (thorough)' if m.get('tiers') == ('thorough',) else '') for m in g['models']]
    out.append('*Models:* %s.  *Recorder:* `%s`.' % (', '.join(models) or 'none of its own (definitions evaluated on recorded calls only)', g['recorder']))
    out.append('*Explored:* %s.' % g['rule'])
    out.append('*Assumptions:* %s.' % '; '.join(g['assumptions']))
    out.append('*Why tests cannot settle it:* %s\n' % p['why_tests_cant'])
out.append(open(here('tools', 'design_mid.md')).read())
caught = json.load(open(here('tools', 'caught.json')))
out.append('| bug | check | clause that names it | what is broken | needs |\n|---|---|---|---|---|')
for s in sorted(os.listdir(here('seeded'))) if os.path.isdir(here('seeded')) else []:
    m = json.load(open(here('seeded', s, 'meta.json')))
    out.append('| %s | %s | %s | %s | %s |' % (s, m['property'], caught.get(s, '?'), m['what_it_breaks'], m['needs']))
out.append('')
out.append(open(here('tools', 'design_tail.md')).read())
open(here('DESIGN.md'), 'w').write('\n'.join(out))
