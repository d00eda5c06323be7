#!/usr/bin/env python3
"""Nothing to build: check that the tools and the specification are usable."""
import glob
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib  # noqa

bad = 0
for path in vlib.TLAJARS.split(':') + [vlib.JYTHON]:
    if not os.path.exists(path):
        print('missing', path)
        bad = 1
mods = [os.path.basename(m) for m in glob.glob(vlib.SPEC + '/*.tla')]
p = subprocess.run(['java', '-cp', vlib.TLAJARS, 'tla2sany.SANY'] + mods,
                   cwd=vlib.SPEC, stdout=subprocess.PIPE,
                   stderr=subprocess.STDOUT)
if p.returncode:
    print(p.stdout.decode()[-3000:])
    bad = 1
print('%d specification modules parsed' % len(mods))
sys.exit(bad)
