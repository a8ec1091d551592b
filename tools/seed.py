"""python tools/seed.py SPEC.py [--keep-existing]: make and validate the planted bugs of a spec file (development aid).
A spec file defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo='python source')]."""
import sys, os, json, shutil, subprocess, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED='0', PYTHONPATH='/opt/vp/pyplugin')
SH = '''#!/bin/bash
# run in /repo: exit 0 if the behaviour is right
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
D=$(mktemp -d)
export NUMBA_CACHE_DIR=$D MPLCONFIGDIR=$D
PYTHONPATH="$PWD" timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"
RC=$?
rm -rf "$D"
exit $RC
'''
PRE = 'import numpy as np\n\n\ndef check(ok, what):\n    if not ok:\n        raise SystemExit("FAIL: " + what)\n\n\n'


def tests(d):
    out = os.path.join(d, 'junit.xml')
    nb = tempfile.mkdtemp(prefix='nb')
    subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'vp_seed', '--rootdir=' + d, '--timeout=300', '--continue-on-collection-errors',
                    '-o', 'junit_family=xunit2', '--junitxml=' + out, 'unit_tests'], cwd=d, env=dict(ENV, NUMBA_CACHE_DIR=nb), capture_output=True)
    r = os.path.join(d, 'r.json')
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', r, 'junit:' + out], capture_output=True)
    shutil.rmtree(nb)
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return base - set(json.load(open(r))['passed'])


def one(b):
    S = os.path.join(ROOT, 'seeded', b['id'])
    d = tempfile.mkdtemp(prefix='seed')
    msg = []
    try:
        subprocess.run('git -C /repo archive HEAD | tar -x -C %s' % d, shell=True, check=True)
        subprocess.run('git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm base', shell=True, cwd=d, check=True)
        os.makedirs(S, exist_ok=True)
        open(S + '/demo.py', 'w').write(PRE + b['demo'].strip() + '\n')
        open(S + '/demo.sh', 'w').write(SH)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(S + '/meta.json', 'w'), indent=1)
        r = subprocess.run(['bash', S + '/demo.sh'], cwd=d, env=ENV, capture_output=True, text=True)
        if r.returncode:
            msg.append('DEMO FAILS ON UNCHANGED TREE ' + (r.stdout + r.stderr)[-600:])
        for f, old, new in b['edits']:
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(old) >= 1, (b['id'], 'text not found', old)
            if s.count(old) > 1:
                msg.append('text occurs %d times' % s.count(old))
            open(p, 'w').write(s.replace(old, new, 1))
        patch = subprocess.run(['git', 'diff'], cwd=d, capture_output=True, text=True).stdout
        open(S + '/patch.diff', 'w').write(patch)
        r = subprocess.run(['bash', S + '/demo.sh'], cwd=d, env=ENV, capture_output=True, text=True)
        if not r.returncode:
            msg.append('DEMO PASSES WITH THE PATCH')
        else:
            msg.append('demo: ' + (r.stdout + r.stderr).strip().split('\n')[-1][:150])
        bad = tests(d)
        if bad:
            msg.append('UNIT TESTS FAIL: %s' % sorted(bad)[:4])
        for f in ('junit.xml', 'r.json'):
            if os.path.exists(os.path.join(d, f)):
                os.remove(os.path.join(d, f))
        r = subprocess.run(['./run', b['property'], '--repo', d, '--no-evidence'], cwd=ROOT, env=dict(os.environ, PV_REPO=d), capture_output=True, text=True)
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION') or 'broken:' in l]
        msg.append('check rc %d %s' % (r.returncode, v[:2]))
        if r.returncode != 1:
            msg.append('NOT CAUGHT')
    finally:
        shutil.rmtree(d)
    return b['id'], msg


if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    want = sys.argv[2:]
    with ThreadPoolExecutor(2) as ex:
        for i, m in ex.map(one, [b for b in bugs if not want or b['id'] in want]):
            print(i)
            for x in m:
                print('   ', x)
