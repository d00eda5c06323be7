#!/usr/bin/env python3
"""addfix.py PROPERTY[,PROPERTY] TEXT: record the last commit of /repo as the
repair of a genuine defect in known_findings.json"""
import json
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fname = os.path.join(HERE, 'known_findings.json')
data = json.load(open(fname)) if os.path.exists(fname) else {'findings': []}
commit = subprocess.check_output(
    ['git', '-C', '/repo', 'rev-parse', '--short', 'HEAD']).decode().strip()
if len(sys.argv) > 3:
    commit = sys.argv[3]
for p in sys.argv[1].split(','):
    data['findings'].append(dict(
        property=p, fixed='fixed: property=%s %s %s' % (p, commit,
                                                        sys.argv[2])))
json.dump(data, open(fname, 'w'), indent=1)
