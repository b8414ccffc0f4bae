"""C16: the L-BFGS minimizer follows its protocol."""
import json
import warnings

import numpy as np

from pyuoi.lbfgs import LBFGS, fmin_lbfgs

import core

EXHAUSTIVE = False
ASSUMPTIONS = (
    'stopping tests within 1e-9 of their bound may go either way',
    'line searches of convex problems with tolerances above rounding end')


class Mine(Exception):
    pass


class MyBase(BaseException):
    pass


def problem(fun, n, r):
    """A function of a vector: (value, gradient)."""
    A = r.randn(2 * n, n)
    if fun == 'quad':
        H = A.T @ A / n + .1 * np.eye(n)
        b = r.randn(n) * 3
        return lambda x: (.5 * x @ H @ x - b @ x, H @ x - b)
    if fun == 'offset':
        H = A.T @ A / n + .1 * np.eye(n)
        b = r.randn(n) * 3
        return lambda x: (.5 * x @ H @ x - b @ x + 100., H @ x - b)
    if fun == 'logit':
        s = np.sign(r.randn(2 * n))

        def logit(x):
            z = s * (A @ x)
            return (np.logaddexp(0, -z).mean() + .05 * x @ x,
                    -A.T @ (s / (1 + np.exp(z))) / (2 * n) + .1 * x)
        return logit
    if fun == 'quartic':
        return lambda x: (np.sum((x - 1) ** 4) + 1, 4 * (x - 1) ** 3)
    if fun == 'rosen':
        def rosen(x):
            x = np.append(x, 1.) if x.size == 1 else x
            f = np.sum(100 * (x[1:] - x[:-1] ** 2) ** 2 + (1 - x[:-1]) ** 2)
            g = np.zeros(x.size)
            g[:-1] += -400 * x[:-1] * (x[1:] - x[:-1] ** 2) \
                - 2 * (1 - x[:-1])
            g[1:] += 200 * (x[1:] - x[:-1] ** 2)
            return f, g[:n]
        return rosen
    if fun == 'kink':
        b = r.randn(n)
        return lambda x: (np.abs(x - b).sum(), np.sign(x - b) + 0.)
    if fun == 'slope':
        b = r.randn(n)
        return lambda x: (b @ x, b + 0.)
    if fun == 'flat':
        return lambda x: (3., np.zeros(n))
    if fun == 'wrong':                 # the gradient points uphill
        return lambda x: (.5 * x @ x + x.sum(), -x - 1)
    raise ValueError(fun)


NICE = ('quad', 'logit', 'flat', 'offset')


def start(kind, n, r):
    x = np.round(r.randn(n) * 2, 2)
    x[r.rand(n) < .3] = 0.
    if kind == 'list':
        return list(x)
    if kind == 'scalar':
        return float(x[0])
    if kind == 'matrix':
        return x.reshape(2, -1)
    if kind == 'fortran':
        return np.asfortranarray(x.reshape(2, -1))
    if kind == 'int':
        return np.round(x).astype(int)
    if kind == 'float32':
        return x.astype(np.float32)
    if kind == 'readonly':
        x.setflags(write=False)
        return x
    if kind == 'strided':
        b = np.zeros(3 * n)
        b[::3] = x
        return b[::3]
    return x


def run_one(s, seed, tweak=()):
    r = np.random.RandomState(seed)
    n = int(r.choice([1, 2, 3, 4, 6, 9]) if r.randint(15) else
            r.choice([17, 40, 101]))
    if s['x0'] in ('matrix', 'fortran'):
        n = 2 * ((n + 1) // 2)
    if s['x0'] == 'scalar':
        n = 1
    f = problem(s['fun'], n, r)
    x0 = start(s['x0'], n, r)
    before = np.array(x0, copy=True)
    x0v = np.atleast_1d(np.asarray(x0, float))
    kw = dict(epsilon=float([1e-5, 1e-3, 1e-4, .1][r.randint(4)]),
              m=int(r.choice([1, 2, 3, 5, 10])))
    c, lo, hi = 0., 0, -1
    if s['l1'] != 'none':
        c = float(r.choice([.05, .3, 1.]))
        lo, hi = {'all': (0, -1), 'head': (0, max(1, n // 2)),
                  'tail': (n // 2, -1), 'middle': (n // 3, max(
                      n // 3, n - 1)), 'empty': (n, n)}[s['l1']]
        kw.update(orthantwise_c=c, orthantwise_start=lo, orthantwise_end=hi)
    past = s['past']
    delta = 0.
    if past:
        delta = float(r.choice([1e-2, 1e-4, .5, 0.]))
        kw.update(past=past, delta=delta)
    limit = s['max'] or (60 if s['fun'] not in NICE else 0)
    if limit:
        kw['max_iterations'] = limit
    search = s['ls'] if c == 0 else 'wolfe'
    # (the settings the promises of the searches are checked with)
    ftol, wolfe, gtol, trials = 1e-4, .9, .9, 40
    if r.rand() < .4:
        ftol = float(r.choice([1e-4, 1e-2, .1]))
        wolfe = float(r.choice([.9, .5]))
        gtol = float(r.choice([.9, .5, .3]))
        kw.update(ftol=ftol, wolfe=wolfe, gtol=gtol)
    kw['max_linesearch'] = trials
    stop = int(r.randint(1, 5))
    extra = (object(), {'a': 1}) if r.rand() < .5 else ()
    mine = [Mine('x'), MyBase('y'), KeyboardInterrupt(), ValueError('z'),
            StopIteration()][r.randint(5)]
    events, count = [], [0, 0]

    def func(x, g, *args):
        count[0] += 1
        ev = dict(type='eval', x=x.ravel().tolist(), shape=list(x.shape),
                  raised=False, f=0., g=[],
                  args=len(args) == len(extra) and all(
                      a is b for a, b in zip(args, extra))
                  and g.shape == x.shape)
        events.append(ev)
        if s['answer'] == 'evalraise' and count[0] == stop:
            ev['raised'] = True
            raise mine
        fx, gx = f(np.array(x.ravel()))
        g[...] = gx.reshape(g.shape)
        ev.update(f=float(fx), g=gx.tolist())
        return fx

    def progress(x, g, fx, xnorm, gnorm, step, k, ls, *args):
        count[1] += 1
        ev = dict(type='progress', x=x.ravel().tolist(), shape=list(x.shape),
                  g=g.ravel().tolist(), fx=fx, xnorm=xnorm, gnorm=gnorm,
                  step=step, k=k, ls=ls, answer='ok',
                  args=len(args) == len(extra) and all(
                      a is b for a, b in zip(args, extra))
                  and g.shape == x.shape)
        events.append(ev)
        if s['answer'] == 'stop' and count[1] == stop:
            v = [1, -1, 2, .5, 'stop', True, -1001, 100, (1,),
                 np.int64(3), -2048][r.randint(11)]
            ev['answer'] = 'allzero' if v == -2048 else 'stop'
            return v
        if s['answer'] == 'raise' and count[1] == stop:
            ev['answer'] = 'raise'
            raise mine
        return [None, 0, 0., False, np.int64(0)][
            count[1] % 5 if s['answer'] == 'zeros' else 0]

    pr = None if s['answer'] == 'noprogress' else progress
    exc, out = '', None
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        try:
            if s['api'] == 'class':
                opt = LBFGS()
                opt.linesearch = search
                for a in kw:
                    setattr(opt, a, kw[a])
                out = opt.minimize(func, x0, pr, extra)
            else:
                out = fmin_lbfgs(func, x0, pr, extra, line_search=s['ls'],
                                 **kw)
        except BaseException as err:      # noqa
            exc = 'mine' if err is mine else type(err).__name__
    end = dict(type='end', exc=exc, x=[], shape=[],
               x0same=bool(np.array_equal(before, np.asarray(x0))))
    if out is not None:
        end.update(x=np.asarray(out, float).ravel().tolist(),
                   shape=list(np.shape(out)))
    events.append(end)
    if len(events) > 400:
        events = None
    return dict(
        events=events, x0=x0v.ravel().tolist(), shape=list(x0v.shape),
        c=c, start=lo, end=n if hi < 0 else hi, epsilon=kw['epsilon'],
        past=past, delta=delta, max=limit, trials=trials, ftol=ftol,
        wolfe=wolfe, gtol=gtol, fun=s['fun'],
        search='morethuente' if search == 'default' else search,
        nice=s['fun'] in NICE,
        warnings=['iterations' if 'maximum number of iterations' in
                  str(w.message) else 'other' for w in caught
                  if not issubclass(w.category, DeprecationWarning)
                  and 'OWL-QN' not in str(w.message)],
        label='%s seed=%d n=%d' % (json.dumps(s), seed, n)), pr is None


def record(scns, seed):
    out = []
    for i, s in enumerate(scns):
        c, quiet = run_one(s, seed + i)
        if c['events'] is None:
            continue
        if quiet:
            # the same run with reports does the same
            d, _ = run_one(dict(s, answer='none'), seed + i)
            a, b = c['events'], d['events']
            same = [repr(x) for x in a if x['type'] != 'progress'] == \
                [repr(x) for x in b if x['type'] != 'progress']
            out.append(dict(c, events=[dict(type='pair', same=same)]))
        else:
            out.append(c)
    return out


def table():
    """Settings that must be refused, and some that must not."""
    def call(api, invalid, x0=None, **kw):
        calls = [0]

        def f(x, g):
            calls[0] += 1
            g[...] = 2 * x
            return np.sum(x ** 2)
        x0 = np.ones(3) if x0 is None else x0
        exc = ''
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                if api == 'class':
                    opt = LBFGS()
                    kw = dict(kw)
                    opt.linesearch = kw.pop('line_search', 'wolfe')
                    for a in kw:
                        setattr(opt, a, kw[a])
                    opt.minimize(f, x0)
                else:
                    fmin_lbfgs(f, x0, **kw)
            except Exception as e:
                exc = type(e).__name__
        return dict(type='call', invalid=invalid, exc=exc, calls=calls[0],
                    text='%s %s' % (api, kw))
    bad = [dict(epsilon=-1e-5), dict(past=-1), dict(delta=-1e-3),
           dict(min_step=-1e-3), dict(max_step=1e-3, min_step=1.),
           dict(ftol=-1e-4), dict(gtol=-.1), dict(xtol=-1e-3),
           dict(max_linesearch=0), dict(max_linesearch=-4),
           dict(orthantwise_c=-.5), dict(m=0), dict(m=-1), dict(m=-5),
           dict(orthantwise_c=1., orthantwise_start=-1),
           dict(orthantwise_c=1., orthantwise_start=4),
           dict(orthantwise_c=1., orthantwise_end=4)]
    bad += [dict(line_search=s, wolfe=w) for s in ('wolfe', 'strongwolfe')
            for w in (1e-5, 1., 1.5, 0.)]
    good = [dict(), dict(epsilon=0., max_iterations=5), dict(past=0),
            dict(past=2, delta=0.), dict(m=1), dict(max_iterations=1),
            dict(ftol=0.), dict(xtol=0.), dict(gtol=.5),
            dict(line_search='armijo', wolfe=1.5),
            dict(orthantwise_c=1., orthantwise_start=3),
            dict(orthantwise_c=1., orthantwise_end=3),
            dict(orthantwise_c=1., orthantwise_end=0),
            dict(orthantwise_c=1., orthantwise_start=1, orthantwise_end=2),
            dict(orthantwise_c=0.)]
    good += [dict(line_search=s) for s in ('default', 'morethuente', 'armijo',
                                           'wolfe', 'strongwolfe')]
    base = dict(c=0., start=0, end=3, epsilon=1e-5, past=0, delta=0., max=0,
                trials=20, ftol=1e-4, wolfe=.9, gtol=.9, fun='quad',
                search='wolfe', nice=True, warnings=[], x0=[1., 1., 1.],
                shape=[3])
    out = []
    for api in ('fmin', 'class'):
        for kws, inv in ((bad, True), (good, False)):
            for kw in kws:
                ev = call(api, inv, **kw)
                out.append(dict(base, events=[ev], label='table ' +
                                ev['text']))
    return out


def run(check):
    deep = check.thorough
    check.model('Lbfgs', 'Lbfgs4.cfg' if deep else None)
    scns = check.scenarios('Lbfgs', 'LbfgsScn.cfg')
    r = np.random.RandomState(check.seed % (1 << 31))
    r.shuffle(scns)
    tasks = [(table, (), 'table')]
    num = 1600 if not deep else len(scns)
    if not deep:
        # every value of every dimension, and more of what ends runs
        scns = scns[:num]
    for i in range(0, num, 20):
        tasks.append((record, (scns[i:i + 20], int(r.randint(1 << 30))),
                      'runs %d' % i))
    check.validate('LbfgsTrace', core.record(tasks))
