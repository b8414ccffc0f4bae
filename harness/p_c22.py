"""C22: the data generators."""
import numpy as np

import core

ASSUMPTIONS = (
    'make_classification standardizes the rows of the design, and has '
    'therefore two or more features',
    'distributions are judged by sums of recorded draws (seven standard '
    'deviations), not by their shape')
KEYS = ('X', 'y', 'W', 'b')


def arguments(s, r, seed):
    p = s['p']
    inf = {'none': 0, 'one': 1, 'half': max(p // 2, 1), 'all': p}[s['inf']]
    n = int(r.choice([250, 400, 1500]))
    kw = dict(n_samples=n, n_features=p, n_informative=inf,
              include_intercept=s['icpt'])
    kw['random_state'] = {'int': seed % 100003, 'None': None,
                          'numpy': np.int64(seed % 100003),
                          'state': np.random.RandomState(seed % 100003)}[
                              s['rng']]
    more = dict(loc=0., scale=1., snr=5., low=0., high=0.)
    if s['gen'] == 'classes':
        kw.update(n_classes=s['K'], shared_support=s['shared'])
        if r.randint(2):
            kw['w_scale'] = float(r.choice([.3, 2.]))
        return kw, more, inf, n
    if s['given']:
        beta = np.round(r.uniform(-2, 2, p), 2)
        beta[r.randint(p)] = 0
        if r.randint(3) == 0:
            beta = np.round(beta).astype(int)
        if s['gen'] == 'poisson':
            beta = beta / 2.
        kw['beta'] = beta
    if s['gen'] == 'linear':
        more.update(loc=3., scale=1., low=1., high=3.)
        if s['where'] != 'default':
            more.update(loc={'zero': 0., 'negative': -20.}[s['where']],
                        scale=float(r.choice([.01, 2., 30.])))
            kw.update(X_loc=more['loc'], X_scale=more['scale'])
        if s['noise'] != 'default':
            more['snr'] = {'none': np.inf, 'little': 1e6, 'much': .1}[
                s['noise']]
            kw['snr'] = more['snr']
        if r.randint(2):
            more.update(low=-4., high=-3.5)
            kw.update(beta_low=-4., beta_high=-3.5)
    else:
        more.update(scale=.125)
        if s['where'] != 'default':
            more.update(loc={'zero': 0., 'negative': -1.}[s['where']],
                        scale=float(r.choice([.05, .5])))
            kw.update(X_loc=more['loc'], X_scale=more['scale'],
                      beta_scale=.7)
        if r.randint(2):
            kw.update(beta_shape=2., beta_scale=.4)
    return kw, more, inf, n


def one(s, seed, label):
    from pyuoi import datasets
    r = np.random.RandomState(seed)
    kw, more, inf, n = arguments(s, r, seed)
    f = {'linear': datasets.make_linear_regression,
         'poisson': datasets.make_poisson_regression,
         'classes': datasets.make_classification}[s['gen']]
    beta = kw.get('beta')
    got, exc = core.attempt(f, **kw)
    c = dict(what='data', gen=s['gen'], n=n, p=s['p'], inf=inf,
             K=s['K'] if s['gen'] == 'classes' else 1, shared=s['shared'],
             given=beta is not None, icpt=s['icpt'], noise=s['noise'],
             exc=exc, X=[], y=[], W=[], b=[], shapes={}, xmax=[], mumax=0,
             unit=1, beta=[] if beta is None else np.array(beta, float),
             label=label, **more)
    if exc:
        return c
    X, y, W, b = got
    c['shapes'] = {k: list(np.shape(v)) for k, v in zip(KEYS, got)}
    W2 = np.atleast_2d(np.array(W, float))
    b2 = np.atleast_1d(np.squeeze(np.array(b, float)))
    if np.ndim(X) == 2 and np.ndim(y) == 1 and np.shape(X)[1] == s['p'] \
            and b2.ndim == 1:
        if s['gen'] == 'classes' and y.dtype.kind not in 'iu':
            c['shapes']['y'] = ['not integers']
        c.update(X=X, y=y, W=W2, b=b2, xmax=abs(X).max(axis=0))
        if s['gen'] == 'poisson':
            eta = (X @ W2.T + b2).max()
            c['mumax'] = float(np.exp(min(eta, 700.)))
    else:
        c['shapes'] = dict(X=[], y=[], W=[], b=[])
    return c


def support(gen, p, inf, K, shared, m, seed, label):
    """How often each feature is informative."""
    from pyuoi import datasets
    hits = np.zeros(p, int)
    for i in range(m):
        kw = dict(n_samples=2, n_features=p, n_informative=inf,
                  random_state=seed + i)
        if gen == 'classes':
            W = datasets.make_classification(n_classes=K,
                                             shared_support=shared, **kw)[2]
            W = W[i % len(W)]
        elif gen == 'linear':
            W = datasets.make_linear_regression(**kw)[2]
        else:
            W = datasets.make_poisson_regression(**kw)[2]
        hits += np.asarray(W).ravel() != 0
    return [dict(what='support', p=p, inf=inf, m=m, hits=hits, label=label)]


def swimmer(label):
    from pyuoi.datasets import load_swimmer

    def go():
        A = load_swimmer()
        B = load_swimmer(flatten=False)
        flat, shape = list(A.shape), list(B.shape)
        same = bool(A.dtype == B.dtype == float and A.min() >= 0
                    and A.max() > 0
                    and all((A[i] == B[:, :, i].T.ravel()).all()
                            for i in range(256)))
        keep = A.copy()
        A[:] = -1
        B[:] = -1
        fresh = bool((load_swimmer() == keep).all())
        return flat, shape, same, fresh
    got, exc = core.attempt(go)
    flat, shape, same, fresh = got if not exc else ([], [], False, False)
    return [dict(what='swimmer', exc=exc, flat=flat, shape=shape, same=same,
                 fresh=fresh, label=label)]


def batch(part):
    return [one(*t) for t in part]


def run(check):
    check.model('Generate')
    if check.thorough:
        check.model('Generate', 'Generate4.cfg', workers=4)
    scn = check.scenarios('Generate', 'GenerateScn.cfg')
    rng = np.random.RandomState(check.seed + 22)
    items = []
    for i, s in enumerate(scn):
        for v in range(6 if check.thorough else 1):
            seed = check.seed * 1000003 + 31 * i + v
            items.append((s, seed, ' '.join('%s=%s' % t
                                            for t in sorted(s.items()))
                          + ' seed=%d' % seed))
    rng.shuffle(items)
    if not check.thorough:
        items = items[:320]
    tasks = [(batch, (items[i:i + 12],), 'data %d' % i)
             for i in range(0, len(items), 12)]
    tasks.append((swimmer, ('swimmer',), 'swimmer'))
    for gen in ('linear', 'poisson', 'classes'):
        for p, inf in ((2, 1), (5, 1), (5, 2), (6, 5)):
            for K, shared in ([(2, False), (3, False), (3, True)]
                              if gen == 'classes' else [(2, False)]):
                label = 'support %s p=%d inf=%d K=%d shared=%s' % (
                    gen, p, inf, K, shared)
                tasks.append((support, (
                    gen, p, inf, K, shared, 3000 if check.thorough else 500,
                    check.seed * 9176 + 5, label), label))
    cases = core.record(tasks, timeout=120)
    check.log(len(cases), 'cases')
    for c in cases:
        check.note(str(c.get('gen', c.get('what'))))
    check.validate('GenTrace', cases, chunks=8)
