"""Confirm a planted bug: plant.py <seeded/id> [check] [tier]

Applies patch.diff in a scratch copy of /repo, builds, runs the stable tests
and the demonstration with and without the change; with `check`, also runs
that property's check on the patched copy."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
           MKL_NUM_THREADS='1', OMPI_ALLOW_RUN_AS_ROOT='1',
           OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_btl='self',
           OMPI_MCA_pml='ob1')
BASE = '4426748'
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=ENV, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout


def main():
    d = os.path.abspath(sys.argv[1])
    patch = os.path.join(d, 'patch.diff')
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    tmp = tempfile.mkdtemp(prefix='plant-')
    repo = os.path.join(tmp, 'repo')
    ok = True
    base = BASE
    f = None
    for line in open(patch):
        if line.startswith('--- a/'):
            f = line[6:].strip()
            old = subprocess.run(['git', 'show', base + ':' + f], cwd='/repo',
                                 capture_output=True, text=True).stdout
            old = {x.strip() for x in old.splitlines()}
        elif line.startswith('-') and line[1:].strip() \
                and line[1:].strip() not in old:
            print('not an original line:', line[1:].rstrip())
            ok = False
    try:
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        demo = os.path.join(tmp, 'demo')
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns(
            '*.diff', 'meta.json'))
        run = ['bash', os.path.join(demo, 'demo.sh')]
        rc, out = sh(run, repo)
        print('demo without:', rc)
        if rc:
            print(out[-2000:])
            ok = False
        rc, out = sh(['git', 'apply', patch], repo)
        if rc:
            print(out)
            return 1
        if '.pyx' in open(patch).read() or '.c\n' in open(patch).read():
            rc, out = sh([PY, 'setup.py', 'build_ext', '--inplace',
                          '--force'], repo)
            if rc:
                print(out[-2000:])
                return 1
        rc, out = sh(run, repo)
        print('demo with:', rc, out.strip().splitlines()[-1:])
        ok = ok and rc != 0
        if 'notest' not in sys.argv:
            e = dict(ENV, PYTHONPATH='/opt/vp/plugins:%s/src' % repo)
            x = os.path.join(tmp, 'junit.xml')
            sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p',
                'vp_seed', '-n', '8', '--timeout=300', '--disable-warnings',
                '-o', 'junit_family=xunit2', '--junitxml=' + x, 'tests'],
               repo, e)
            passed = {t.get('classname') + '::' + t.get('name')
                      for t in ET.parse(x).iter('testcase')
                      if not len([c for c in t if c.tag in
                                  ('failure', 'error', 'skipped')])}
            stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
            miss = [t for t in stable if t not in passed]
            print('tests:', len(stable) - len(miss), 'pass;', miss[:5])
            ok = ok and not miss
        print('PLANTED' if ok else 'NOT VALID', os.path.basename(d))
        if 'check' in sys.argv:
            tier = 'thorough' if 'thorough' in sys.argv else 'quick'
            rc, out = sh(['/verif/check', prop, tier], '/verif',
                         dict(os.environ, UOI_REPO=repo))
            print('\n'.join(x[:230] for x in out.splitlines()[-7:]))
            print('CAUGHT' if rc == 1 and 'VIOLATION property=' + prop in out
                  else 'MISSED (%d)' % rc, os.path.basename(d))
    finally:
        shutil.rmtree(tmp)
    return 0 if ok else 1


sys.exit(main())
