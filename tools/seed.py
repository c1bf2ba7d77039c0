"""helper to write a seeded change:  seed(id, prop, [(file, old, new), ...], demo, needs, breaks)"""
import json, os, shutil, subprocess, sys
W = '/tmp/seedwork'
OUT = '/verif/seeded'
DEMO_SH = '#!/bin/bash\n# run in the repository; scratch files go to a directory of its own\nD=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore "$D/demo.py"\n'
PRE = '''import io, os, sys, logging
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
logging.disable(logging.CRITICAL)
FIX = os.path.join(os.getcwd(), 'tests', 'hwp5_tests', 'fixtures')
'''
def seed(id, prop, edits, demo, needs, breaks, files=()):
    subprocess.check_call('git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (W, W, W), shell=True)
    for f, old, new in edits:
        p = os.path.join(W, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    d = os.path.join(OUT, id)
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(['git', '-C', W, 'diff'])
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    subprocess.check_call(['git', '-C', W, 'checkout', '-q', '--', '.'])
    open(os.path.join(d, 'demo.py'), 'w').write(PRE + demo)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
    for f in files:
        shutil.copy(f, d)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print('seeded', id)
