#!/usr/bin/env python3
"""Run the quick check of the property of each planted change on /repo with
the change applied (and undone straight afterwards): trybugs.py [ID...]"""
import json
import os
import subprocess
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(VERIF + '/seeded'))
for bug in ids:
    d = '%s/seeded/%s/' % (VERIF, bug)
    prop = json.load(open(d + 'meta.json'))['property']
    subprocess.check_call(['git', '-C', '/repo', 'apply', d + 'patch.diff'])
    try:
        p = subprocess.run(['python3', 'bin/check.py', prop, '--tier', 'quick'],
                           cwd=VERIF, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_SEED='1'))
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    viol = [l for l in p.stdout.splitlines() if l.startswith(
        'VIOLATION property=%s ' % prop)]
    print(bug, prop, 'caught' if p.returncode == 1 and viol else
          'MISSED (exit %d)\n%s' % (p.returncode, (p.stdout + p.stderr)[-600:]),
          flush=True)
