#!/usr/bin/env python3
"""Write MANIFEST.json from the registered checks and properties.jsonl"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, 'bin'), os.path.join(HERE, 'checks')]
sys.dont_write_bytecode = True
import check  # noqa

reg = check.registry()
NOTE = ('The specification is model checked by TLC on bounded instances; the '
        'code is bound to it by replaying TLC-generated (and seeded random) '
        'scenarios on the real modules of /repo under Jython and validating '
        'every recorded trace with TLC. Not exhaustive over inputs: what is '
        'explored is in the evidence file. Trusts the stand-ins in stubs/ '
        'for third party packages absent from the sandbox.')
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p in reg:
        c = reg[p]
        checks.append(dict(
            property=p,
            quick_cmd='python3 bin/check.py %s --tier quick' % p,
            thorough_cmd='python3 bin/check.py %s --tier thorough' % p,
            technique=c['technique'], level=c['level'],
            level_note=c.get('note', NOTE)))
    else:
        na.append(dict(property=p, reason='not claimed yet: its '
                       'specification is being written'))
json.dump(dict(version=1, setup_cmd='python3 bin/setup.py', checks=checks,
               not_applicable=na),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
