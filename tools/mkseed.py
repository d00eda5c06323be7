#!/usr/bin/env python3
"""Build and confirm planted changes: mkseed.py FILE [ID...]

FILE is a Python file defining BUGS, a list of dictionaries with keys id, prop,
edits [(path, old, new), ...] (path relative to openquake/commonlib unless it
contains bin/), demo (Python 2 source; exit status nonzero = broken), needs,
breaks.  Each change is confirmed in a scratch copy of /repo: it builds, the
stable tests pass, the demonstration passes without it and fails with it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run with cwd = the repository; everything else is found beside this script
here=$(cd "$(dirname "$0")" && pwd)
export JYTHONPATH="$here/stubs:$PWD" LC_ALL=C.UTF-8
scratch=$(mktemp -d); trap 'rm -rf "$scratch"' EXIT
SCRATCH=$scratch timeout 200 java -Xss16m -jar /usr/share/java/jython.jar \\
    -Dpython.home=/usr -B "$here/demo.py"
'''


def sh(cmd, cwd, **env):
    p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True,
                       text=True, env=dict(os.environ, **env), timeout=400)
    return p.returncode, p.stdout + p.stderr


def stable_tests(copy):
    code, out = sh('jython -B /opt/vp/run_nose.py -v '
                   'openquake/commonlib/tests/valid_test.py', copy,
                   JYTHONPATH='/opt/jylib:' + copy, LC_ALL='C.UTF-8')
    return code == 0 and 'Ran 12 tests' in out, out


def build(bug):
    dest = os.path.join(VERIF, 'seeded', bug['id'])
    tmp = tempfile.mkdtemp(prefix='seed')
    copy = os.path.join(tmp, 'repo')
    try:
        sh('git clone -q /repo %s' % copy, tmp)
        shutil.rmtree(dest, ignore_errors=True)
        os.makedirs(dest)
        with open(dest + '/demo.py', 'w') as f:
            f.write('# -*- coding: utf-8 -*-\n' + bug['demo'].lstrip('\n'))
        with open(dest + '/demo.sh', 'w') as f:
            f.write(SH)
        os.chmod(dest + '/demo.sh', 0o755)
        shutil.copytree(VERIF + '/stubs', dest + '/stubs',
                        ignore=shutil.ignore_patterns('*.class', '*.md'))
        clean, out0 = sh('bash %s/demo.sh' % dest, copy)
        for path, old, new in bug['edits']:
            full = os.path.join(copy, '' if '/' in path else
                                'openquake/commonlib', path)
            s = open(full).read()
            if s.count(old) != 1:
                return 'edit matches %d times: %s' % (s.count(old), old)
            open(full, 'w').write(s.replace(old, new))
        code, diff = sh('git diff', copy)
        with open(dest + '/patch.diff', 'w') as f:
            f.write(diff)
        with open(dest + '/meta.json', 'w') as f:
            json.dump(dict(property=bug['prop'], needs=bug['needs'],
                           what_it_breaks=bug['breaks']), f, indent=1)
        code, out = sh('git blame -s HEAD -- . >/dev/null; git apply --check '
                       '-R %s/patch.diff' % dest, copy)
        if code:
            return 'patch does not apply: ' + out
        ok, out = stable_tests(copy)
        if not ok:
            return 'tests fail:\n' + out[-1500:]
        broken, out1 = sh('bash %s/demo.sh' % dest, copy)
        if clean != 0:
            return 'demo fails on the clean tree:\n' + out0[-1500:]
        if broken == 0:
            return 'demo passes with the change:\n' + out1[-1500:]
        if broken == 124:
            return 'demo timed out'
        return ''
    finally:
        shutil.rmtree(tmp)

if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    bugs = [b for b in ns['BUGS'] if not sys.argv[2:] or
            b['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(4) as ex:
        for bug, err in zip(bugs, ex.map(build, bugs)):
            print(bug['id'], 'confirmed' if not err else 'REJECTED ' + err)
            if err:
                shutil.rmtree(os.path.join(VERIF, 'seeded', bug['id']),
                              ignore_errors=True)
