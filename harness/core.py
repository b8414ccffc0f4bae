"""Framework of the checks: building, TLC, recording workers, verdicts, evidence."""
import contextlib
import fcntl
import hashlib
import json
import math
import os
import re
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('UOI_REPO', '/repo')     # (for development only)
if REPO != '/repo':
    sys.path.insert(0, os.path.join(REPO, 'src'))
SPEC = os.path.join(VERIF, 'spec')
PY = '/opt/venv/bin/python'
TLA = '/opt/veriftools/tla'
JARS = '%s/tla2tools.jar:%s/CommunityModules-deps.jar' % (TLA, TLA)
NCPU = min(8, os.cpu_count() or 1)


class Machinery(Exception):
    """The check itself does not work (never a verdict on the code)."""


# --------------------------------------------------------------------------
# building
# --------------------------------------------------------------------------
@contextlib.contextmanager
def lock(name):
    path = os.path.join(tempfile.gettempdir(), 'uoi-verif-%s.lock' % name)
    with open(path, 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def _inputs():
    names = []
    for top in ('setup.py', 'pyproject.toml', 'liblbfgs', 'compat', 'src'):
        path = os.path.join(REPO, top)
        if os.path.isfile(path):
            names.append(path)
        for d, _, files in os.walk(path):
            for f in files:
                ext = os.path.splitext(f)[1]
                if ext in ('.pyx', '.pxd', '.pxi', '.h', '.c') and not (
                        d.endswith('pyuoi/lbfgs') and f == '_lowlevel.c'):
                    names.append(os.path.join(d, f))
    return sorted(names)


def build_extension():
    """Rebuild the Cython extension in place if its inputs changed."""
    cmd = r"""cd /repo && find setup.py pyproject.toml liblbfgs compat src -type f \
        \( -name '*.py' -path 'setup.py' -o -name pyproject.toml -o -name '*.pyx' -o -name '*.pxd' -o -name '*.pxi' \
           -o -name '*.h' -o -name '*.c' ! -path 'src/pyuoi/lbfgs/_lowlevel.c' \) -print0 \
      | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum"""
    lb = os.path.join(REPO, 'src/pyuoi/lbfgs')
    stamp = os.path.join(REPO, 'build', 'vp-ext.sha256')
    with lock('ext'):
        want = subprocess.run(['bash', '-c', cmd], capture_output=True,
                              text=True).stdout.strip()
        have = open(stamp).read().strip() if os.path.exists(stamp) else ''
        if have == want and any(f.startswith('_lowlevel') and f.endswith('.so')
                                for f in os.listdir(lb)):
            return False
        for f in os.listdir(lb):
            if f.startswith('_lowlevel') and (f.endswith('.so')
                                              or f == '_lowlevel.c'):
                os.unlink(os.path.join(lb, f))
        if os.path.exists(stamp):
            os.unlink(stamp)
        p = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace',
                            '--force'], cwd=REPO, capture_output=True,
                           text=True)
        if p.returncode != 0:
            raise Machinery('the extension does not build:\n' + p.stderr[-3000:])
        os.makedirs(os.path.dirname(stamp), exist_ok=True)
        with open(stamp, 'w') as f:
            f.write(want + '\n')
    return True


def build_override():
    """Compile the TLC module override; returns its class path."""
    src = os.path.join(SPEC, 'java', 'UoIReal.java')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(VERIF, '.build', 'java-' + h)
    if os.path.exists(os.path.join(out, 'UoIReal.class')):
        return out
    with lock('java'):
        if not os.path.exists(os.path.join(out, 'UoIReal.class')):
            tmp = out + '.%d' % os.getpid()
            os.makedirs(tmp, exist_ok=True)
            p = subprocess.run(['javac', '-cp', JARS, '-d', tmp, src],
                               capture_output=True, text=True)
            if p.returncode != 0:
                raise Machinery('javac: ' + p.stderr)
            if os.path.isdir(out):
                shutil.rmtree(out)
            os.rename(tmp, out)
    return out


# --------------------------------------------------------------------------
# JSON: floats are strings (TLC has 32 bit integers only)
# --------------------------------------------------------------------------
def num(x):
    x = float(x)
    if math.isnan(x):
        return 'nan'
    if math.isinf(x):
        return 'inf' if x > 0 else '-inf'
    return repr(x)


def enc(o):
    import numpy as np
    if o is None:
        return 'None'
    if isinstance(o, (bool, np.bool_)):
        return bool(o)
    if isinstance(o, (int, np.integer)):
        return int(o) if abs(int(o)) < 2**31 - 1 else str(int(o))
    if isinstance(o, (float, np.floating)):
        return num(o)
    if isinstance(o, str):
        return o
    if isinstance(o, np.ndarray):
        return enc(o.tolist())
    if isinstance(o, (list, tuple)):
        return [enc(v) for v in o]
    if isinstance(o, (set, frozenset)):
        return [enc(v) for v in sorted(o)]
    if isinstance(o, dict):
        return {str(k): enc(v) for k, v in o.items()}
    raise Machinery('cannot encode %r' % type(o))


# --------------------------------------------------------------------------
# recording in worker processes
# --------------------------------------------------------------------------
def _worker(tasks, wfd):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    import warnings
    warnings.simplefilter('ignore')
    with os.fdopen(wfd, 'w') as out:
        for i, fn, args, _ in tasks:
            out.write(json.dumps({'start': i}) + '\n')
            out.flush()
            try:
                res = {'end': i, 'cases': [enc(c) for c in fn(*args)]}
            except BaseException as e:
                tb = traceback.format_exc()
                res = {'end': i, 'error': tb}
                if REPO + '/src/pyuoi' in tb or (
                        not os.environ.get('UOI_STRICT')
                        and isinstance(e, (ValueError, LookupError, TypeError,
                                           ArithmeticError, AttributeError))):
                    # raised by the code under test, or by looking at
                    # results that are not what was asked for
                    res = {'end': i, 'crash': tb[-1500:]}
            out.write(json.dumps(res) + '\n')
            out.flush()


def cpu_seconds(pid):
    """CPU time of one of our workers (slow is not the same as stuck)."""
    try:
        with open('/proc/%d/stat' % pid) as f:
            a = f.read().rsplit(')', 1)[1].split()
        return (int(a[11]) + int(a[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError, ValueError):
        return 0.


MAX_HANGS = 8      # then the rest is not recorded any more


def record(tasks, procs=NCPU, timeout=60):
    """Run tasks (fn, args, label) in worker processes.

    Returns the recorded cases, in the order of the tasks.  A task whose
    process dies of a signal, or which does not end (which takes more than
    `timeout` seconds of CPU time, or three times that altogether), yields a
    case with a `crash` field: the harness only calls the code under test in
    there.
    """
    hangs = 0
    tasks = [(i,) + tuple(t) for i, t in enumerate(tasks)]
    results = {}
    queue = [[] for _ in range(procs)]
    for t in tasks:
        queue[t[0] % procs].append(t)
    queue = [q for q in queue if q]
    workers = {}

    def spawn(todo):
        sys.stdout.flush()
        sys.stderr.flush()
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for other in list(workers):
                    os.close(other)
                _worker(todo, w)
            finally:
                os._exit(0)
        os.close(w)
        workers[r] = dict(pid=pid, todo=todo, buf='', cur=None,
                          t=time.time(), cpu=0.)

    for q in queue:
        spawn(q)
    while workers:
        ready, _, _ = select.select(list(workers), [], [], 0.5)
        now = time.time()
        for r in list(workers):
            wk = workers[r]
            eof = False
            if r in ready:
                data = os.read(r, 1 << 20)
                eof = not data
                wk['buf'] += data.decode()
                while '\n' in wk['buf']:
                    line, wk['buf'] = wk['buf'].split('\n', 1)
                    m = json.loads(line)
                    wk['t'] = now
                    wk['cpu'] = cpu_seconds(wk['pid'])
                    if 'start' in m:
                        wk['cur'] = m['start']
                    else:
                        results[m['end']] = m
                        wk['cur'] = None
                        wk['todo'] = [t for t in wk['todo']
                                      if t[0] != m['end']]
            hang = (not eof and wk['cur'] is not None
                    and now - wk['t'] > timeout
                    and (now - wk['t'] > 3 * timeout or cpu_seconds(
                        wk['pid']) - wk['cpu'] > timeout))
            if eof or hang:
                if hang:
                    hangs += 1
                    os.kill(wk['pid'], signal.SIGKILL)
                _, status = os.waitpid(wk['pid'], 0)
                os.close(r)
                del workers[r]
                if wk['cur'] is not None:
                    why = ('does not end' if hang else
                           'signal %d' % os.WTERMSIG(status)
                           if os.WIFSIGNALED(status) else 'exit')
                    if hang is False and os.WIFSIGNALED(status) \
                            and os.WTERMSIG(status) == signal.SIGKILL:
                        raise Machinery('a worker was killed (memory?)')
                    results[wk['cur']] = {'crash': why}
                    todo = [t for t in wk['todo'] if t[0] != wk['cur']]
                    if todo and hangs < MAX_HANGS:
                        spawn(todo)
    cases = []
    for t in tasks:
        m = results.get(t[0])
        if m is None and hangs >= MAX_HANGS:
            continue
        if m is None:
            raise Machinery('task %r was lost' % (t[3],))
        if 'error' in m:
            raise Machinery('recording %r failed:\n%s' % (t[3], m['error']))
        if 'crash' in m:
            cases.append({'crash': m['crash'], 'label': str(t[3])})
            continue
        for c in m['cases']:
            c.setdefault('label', str(t[3]))
            cases.append(c)
    return cases


def attempt(fn, *args, **kwargs):
    """Call the code under test: (result, '') or (None, name of exception)."""
    try:
        return fn(*args, **kwargs), ''
    except Exception as e:     # noqa: whatever it raises is observed
        return None, type(e).__name__ + ': ' + str(e)[:160]


# --------------------------------------------------------------------------
# TLC
# --------------------------------------------------------------------------
class TLC:
    def __init__(self, workdir):
        self.workdir = workdir
        self.classes = build_override()
        self.n = 0

    def start(self, module, cfg, env=None, workers=1, opts=(), heap='2g'):
        self.n += 1
        meta = os.path.join(self.workdir, 'tlc%d' % self.n)
        os.makedirs(meta)
        cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else
               '-XX:+UseParallelGC', '-XX:TieredStopAtLevel=1'
               if workers == 1 and heap == '2g' else '-XX:+TieredCompilation',
               '-Xss16m', '-Xmx' + heap,
               '-Djava.io.tmpdir=' + meta,
               '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:'
               'UoIReal', '-DTLA-Library=' + SPEC,
               '-cp', JARS + ':' + self.classes, 'tlc2.TLC',
               '-metadir', os.path.join(meta, 'm'), '-noGenerateSpecTE',
               '-workers', str(workers), '-lncheck', 'final',
               '-config', os.path.join(SPEC, cfg)] + list(opts) + [
                   os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ)
        e.update(env or {})
        out = open(os.path.join(meta, 'out'), 'w+')
        p = subprocess.Popen(cmd, cwd=meta, env=e, stdout=out,
                             stderr=subprocess.STDOUT, text=True)
        return p, out, module + '/' + cfg

    def finish(self, job, timeout=800, ok=(0,)):
        p, out, name = job
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            raise Machinery('TLC %s does not end' % name)
        out.seek(0)
        text = out.read()
        out.close()
        m = re.search(r'^(\d+) states generated, (\d+) distinct', text, re.M)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        return p.returncode, text, gen, dist


class Check:
    """One run of the check of one property."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.workdir = tempfile.mkdtemp(prefix='uoi-%s-' % pid)
        self.tlc = TLC(self.workdir)
        self.states = self.transitions = self.traces = 0
        self.samples, self.bad, self.notes = [], [], {}
        self.jobs = []
        self.models = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def log(self, *a):
        print('[%6.1fs]' % (time.time() - self.t0), *a, flush=True)

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    # ---- models --------------------------------------------------------
    def model(self, module, cfg=None, workers=2, env=None, heap='3g'):
        """Start an exhaustive exploration of a model (joined in finish)."""
        job = self.tlc.start(module, cfg or module + '.cfg', workers=workers,
                             env=env, heap=heap)
        self.models.append(job)

    def join_models(self):
        for job in self.models:
            rc, text, gen, dist = self.tlc.finish(job)
            if rc != 0:
                raise Machinery('model %s fails:\n%s' % (job[2], text[-4000:]))
            self.states += dist
            self.transitions += gen
            self.notes['model ' + job[2]] = '%d distinct states, %d ' \
                'transitions' % (dist, gen)
            self.log('model', job[2], dist, 'states', gen, 'transitions')
        self.models = []

    def scenarios(self, module, cfg=None, env=None):
        """Scenarios TLC enumerates from a specification."""
        path = os.path.join(self.workdir, 'scn%d.ndjson' % self.tlc.n)
        e = {'OUT': path}
        e.update(env or {})
        rc, text, gen, dist = self.tlc.finish(self.tlc.start(
            module, cfg or module + '.cfg', env=e))
        if rc != 0 or not os.path.exists(path):
            raise Machinery('scenarios of %s:\n%s' % (module, text[-3000:]))
        self.states += dist
        self.transitions += gen
        scn = [json.loads(line) for line in open(path)]
        self.log('scenarios', module, len(scn))
        return scn

    def simulate(self, module, num, seed, cfg=None, env=None, depth=100):
        """Behaviours TLC draws from a specification (printed as SCN|json)."""
        rc, text, gen, dist = self.tlc.finish(self.tlc.start(
            module, cfg or module + '.cfg', env=env,
            opts=['-simulate', 'num=%d' % num, '-seed', str(seed),
                  '-depth', str(depth)]))
        scn = [json.loads(json.loads('"' + m + '"')) for m in
               re.findall(r'^"SCN\|(.*)"$', text, re.M)]
        if not scn:
            raise Machinery('simulation of %s:\n%s' % (module, text[-3000:]))
        self.notes['behaviours drawn from ' + module] = len(scn)
        return scn

    # ---- traces ----------------------------------------------------------
    def validate(self, module, cases, cfg='Trace.cfg', chunks=None,
                 env=None, whole=False, only=None):
        """Check recorded cases (or, whole, one trace) with a specification.

        With `only`, clauses which belong to another property do not count.

        Returns a list of (case, set of failing clauses)."""
        fails = []
        live = []
        for c in cases:
            if 'crash' in c:
                fails.append((c, {'crash'}))
            else:
                live.append(c)
        if live:
            size = sum(len(json.dumps(c)) for c in live)
            if chunks is None:
                chunks = 1 if whole else max(
                    1, min(NCPU, len(live), 1 + size // 400000,
                           ))
            parts = [live[i::chunks] for i in range(chunks)]
            jobs = [self._start(module, cfg, part, env) for part in parts]
            for part, job in zip(parts, jobs):
                fails += self._verdict(module, cfg, part, job, env, whole)
        if only is not None:
            other = [(c, {x for x in cl if re.match(r'C\d\d\.', x)
                          and not x.startswith(
                              (only if isinstance(only, tuple) else (only,))
                              + ("C10.shape",))})
                     for c, cl in fails]
            fails = [(c, cl - o) for (c, cl), (_, o) in zip(fails, other)
                     if cl - o]
            for c, o in other:
                for x in o:
                    self.note('fails, but belongs to another property: ' + x)
        self.traces += len(cases)
        self.bad += fails
        if len(self.samples) < 4:
            for c in cases[:1]:
                s = json.dumps(c)
                self.samples.append(s if len(s) < 1500 else s[:1500] + '...')
        self.log('traces', module, len(cases), 'failing', len(fails))
        return fails

    def _start(self, module, cfg, part, env):
        path = os.path.join(self.workdir, 'tr%d.ndjson' % self.tlc.n)
        with open(path, 'w') as f:
            for c in part:
                f.write(json.dumps(c) + '\n')
        e = {'TRACE': path}
        e.update(env or {})
        return self.tlc.start(module, cfg, env=e)

    def _verdict(self, module, cfg, part, job, env, whole):
        rc, text, gen, dist = self.tlc.finish(job)
        if rc != 0 and 'BAD|' not in text and '@!@' not in text \
                and 'Parsing or semantic analysis failed' in text:
            raise Machinery('%s:\n%s' % (module, text[-3000:]))
        self.states += dist
        self.transitions += gen
        if rc != 0:
            # evaluation failed for what was observed in one of the cases
            if len(part) == 1 or whole:
                m = re.search(r'Error: .*?(?=\nFinished|\Z)', text, re.S)
                msg = (m.group(0) if m else text[-1500:])[:1500]
                if os.environ.get('UOI_STRICT'):
                    raise Machinery(module + ': ' + text[-6000:])
                return [(dict(part[0], tlc=msg), {'unexplainable'})]
            h = len(part) // 2
            res = []
            for sub in (part[:h], part[h:]):
                res += self._verdict(module, cfg, sub,
                                     self._start(module, cfg, sub, env), env,
                                     whole)
            return res
        byline = {}
        for m in re.finditer(r'^"BAD\|(\d+)\|(.*)"$', text, re.M):
            byline.setdefault(int(m.group(1)) - 1, set()).add(m.group(2))
        for m in re.finditer(r'^"NOTE\|(.*)"$', text, re.M):
            self.note(m.group(1))
        return [(part[i], cl) for i, cl in sorted(byline.items())]

    # ---- verdict ---------------------------------------------------------
    def finish(self, level='model_checking', exhaustive=False,
               assumptions=()):
        self.join_models()
        known = load_known(self.pid)
        bad, seen = [], {}
        for c, clauses in self.bad:
            for cl in sorted(clauses):
                key = finding_key(c, cl)
                if key in known:
                    seen[key] = known[key]
                else:
                    bad.append((c, cl))
        for key, text in sorted(seen.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, text))
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   samples=self.samples or ['none'], exhaustive=exhaustive)
        cov.update({'detail': {k: v for k, v in sorted(self.notes.items())}})
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed,
                  level=level, coverage=cov, assumptions=list(assumptions),
                  wall_s=round(time.time() - self.t0, 2),
                  violations=len(bad))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'),
                  'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.workdir, ignore_errors=True)
        if bad:
            os.makedirs(os.path.join(VERIF, 'out'), exist_ok=True)
            path = os.path.join(VERIF, 'out', self.pid + '.json')
            with open(path, 'w') as f:
                json.dump([dict(clause=cl, case=c) for c, cl in bad[:50]], f,
                          indent=1)
            count = {}
            for c, cl in bad:
                count.setdefault(cl, []).append(c.get('label', ''))
            for cl, labels in sorted(count.items()):
                print('  fails: %-28s %4d times, e.g. %s'
                      % (cl, len(labels), labels[0]))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        print('%s %s: held on %d traces, %d states, %.1fs'
              % (self.pid, self.tier, self.traces, self.states,
                 time.time() - self.t0))
        return 0


def finding_key(case, clause):
    return '%s %s' % (clause, case.get('label', ''))


def load_known(pid):
    """known_findings.txt: lines 'open: property=<id> key=<clause label> | text'."""
    path = os.path.join(VERIF, 'known_findings.txt')
    known = {}
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'open: property=(\S+) key=(.*?) \| (.*)$', line)
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3)
    return known
