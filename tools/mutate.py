"""Try a change in a scratch copy: mutate.py CHECKS FILE OLD NEW [FILE OLD NEW...]

CHECKS is a comma separated list; OLD must occur exactly once in FILE (below
src/pyuoi).  Prints which checks report it.  With TESTS=1 the stable tests
are run as well."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

checks, edits = sys.argv[1].split(','), sys.argv[2:]
top = tempfile.mkdtemp(prefix='uoi-mut-')
copy = os.path.join(top, 'repo')
subprocess.run(['cp', '-a', '/repo', copy], check=True)
try:
    for f, old, new in zip(*[iter(edits)] * 3):
        p = os.path.join(copy, 'src/pyuoi', f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    if os.environ.get('TESTS'):
        t = subprocess.run(
            'cd %s && PYTHONPATH=%s/src:/opt/vp/plugins PYTHONHASHSEED=0 '
            'OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg '
            'OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 '
            'OMPI_MCA_btl=self OMPI_MCA_pml=ob1 '
            '/opt/venv/bin/python -m pytest -q -p vp_seed -n 8 --no-header '
            '-p no:cacheprovider --disable-warnings tests 2>&1 | tail -4'
            % (copy, copy), shell=True, capture_output=True, text=True)
        print(t.stdout)
    for c in checks:
        r = subprocess.run(['/verif/check', c, os.environ.get('TIER',
                                                              'quick')],
                           env=dict(os.environ, UOI_REPO=copy),
                           capture_output=True, text=True)
        lines = [x for x in r.stdout.splitlines() if 'fails:' in x or
                 'VIOLATION' in x or 'MACHINERY' in x]
        print(c, {0: 'missed', 1: 'CAUGHT'}.get(r.returncode, 'ERROR'),
              '\n'.join(lines)[:1200], r.stderr[-500:]
              if r.returncode not in (0, 1) else '')
finally:
    shutil.rmtree(top)
