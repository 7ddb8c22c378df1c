#!/usr/bin/env python3
"""writes MANIFEST.json from the list of claimed properties"""
import json
import os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {}
NOTES = {}
exec(open(os.path.join(D, 'tools', 'claims.py')).read())
ids = [json.loads(ln)['id'] for ln in open(os.path.join(D, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in CLAIMED:
        continue
    lvl, note = CLAIMED[i]
    checks.append(dict(property=i, quick_cmd='/opt/venv/bin/python /verif/check.py %s' % i,
                       thorough_cmd='VERIF_TIER=thorough /opt/venv/bin/python /verif/check.py %s' % i,
                       technique='contract-based deductive verification of the real code (own VC generator, Z3)',
                       level=lvl, level_note=note))
m = dict(version=1, setup_cmd='/opt/venv/bin/python /verif/tools/setup.py', checks=checks,
         not_applicable=[dict(property=i, reason=NOTES.get(i, 'not claimed yet: the check is being built')) for i in ids if i not in CLAIMED])
json.dump(m, open(os.path.join(D, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(D, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'claimed')
