"""python tools/mut.py PROP file 'old' 'new' [--only X]: run a check on a scratch copy of /repo with one replacement (development aid)"""
import sys, os, shutil, subprocess, tempfile
prop, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix='mut')
try:
    base = os.environ.get('MUT_BASE')
    subprocess.run('cp -a %s/rainbow %s/' % (base, d) if base else 'git -C /repo archive HEAD | tar -x -C %s' % d, shell=True, check=True)
    p = os.path.join(d, f)
    s = open(p).read()
    assert old in s, 'text not found'
    open(p, 'w').write(s.replace(old, new, 1))
    compile(s.replace(old, new, 1), p, 'exec')
    r = subprocess.run(['./run', prop, '--repo', d, '--no-evidence'] + sys.argv[5:], env=dict(os.environ, PV_REPO=d), capture_output=True, text=True)
    print((r.stdout + r.stderr)[-2500:], 'rc', r.returncode)
finally:
    shutil.rmtree(d)
