"""Writes /verif/MANIFEST.json from the list of claimed checks."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'TLA+ specification checked with TLC; its behaviours replayed into the code, recorded runs validated against it'
CLAIMS = {}
exec(open(os.path.join(HERE, 'tools', 'claims.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in props:
    if p in CLAIMS:
        tech, note = CLAIMS[p]
        checks.append(dict(property=p, quick_cmd='/opt/venv/bin/python check.py %s' % p,
                           thorough_cmd='env VERIF_TIER=thorough /opt/venv/bin/python check.py %s' % p,
                           evidence_file='evidence/%s.json' % p,
                           technique=tech or T, level='model_checking', level_note=note))
m = dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup.py',
         checks=checks,
         not_applicable=[dict(property=p, reason=NOT_APPLICABLE.get(p, 'check still being built'))
                         for p in props if p not in CLAIMS],
         notes='No hooks in /repo: every observation is made at public calls. See DESIGN.md.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(m['not_applicable']), 'not')
