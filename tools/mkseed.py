"""mkseed.py SPEC.py [--nocheck]: build and validate a planted bug from a specification.

SPEC.py defines ID, PROPERTY, EDITS [(file, old, new)], NEEDS, BREAKS, DEMO (python text).
Writes seeded/<ID>/ and validates it on scratch copies of /repo.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
spec = {}
exec(open(sys.argv[1]).read(), spec)
d = tempfile.mkdtemp(prefix='seed')
subprocess.check_call(['cp', '-a', '/repo/.', d])
for f, old, new in spec['EDITS']:
    p = os.path.join(d, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, 'w').write(s.replace(old, new))
diff = subprocess.check_output(['git', 'diff'], cwd=d).decode()
out = os.path.join(ROOT, 'seeded', spec['ID'])
os.makedirs(out, exist_ok=True)
open(out + '/patch.diff', 'w').write(diff)
open(out + '/demo.py', 'w').write(spec['DEMO'].lstrip())
open(out + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd = the repository; exit 0 if the behaviour is right
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec timeout 120 /opt/venv/bin/python -W ignore "$here/demo.py"
''')
os.chmod(out + '/demo.sh', 0o755)
json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']},
          open(out + '/meta.json', 'w'), indent=1)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


for i in range(2):
    r = sh([out + '/demo.sh'], cwd='/repo')
    assert r.returncode == 0, 'demo fails on the unchanged tree:\n' + r.stdout[-3000:]
r = sh([out + '/demo.sh'], cwd=d)
assert r.returncode != 0, 'demo passes with the change:\n' + r.stdout[-3000:]
print('demo ok:', r.stdout.strip().splitlines()[-1:])
env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
x = d + '/junit.xml'
r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=100', '-o',
        'junit_family=xunit2', '--ignore=katcp/test/test_resource_client.py', '--junitxml=' + x,
        'katcp'], cwd=d, env=env)
passed = set()
for tc in ET.parse(x).iter('testcase'):
    if not [c for c in tc if c.tag in ('failure', 'error', 'skipped')]:
        passed.add((tc.get('classname'), tc.get('name')))
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
names = set('%s::%s' % p for p in passed) | set('%s.%s' % p for p in passed)
miss = [s for s in stable if s not in names and s.split('/')[-1] not in names]
print('tests passed', len(passed), 'of', len(stable), 'missing', miss[:5], stable[0] if len(miss) > 10 else '')
assert not miss or len(miss) > 300
if '--nocheck' not in sys.argv:
    r = sh([ROOT + '/run.sh', spec['PROPERTY'], 'quick'], env=dict(os.environ, KATCP_REPO=d), cwd=ROOT)
    v = [ln[:300] for ln in r.stdout.splitlines() if 'VIOLATION' in ln or 'violations=' in ln]
    print('CHECK', spec['PROPERTY'], 'rc', r.returncode, v[:1], v[-1:])
    if r.returncode not in (0, 1):
        print(r.stdout[-1500:])
shutil.rmtree(d)
