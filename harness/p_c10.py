"""C10: degenerate data."""
import numpy as np

import core
import fits
import relate

ASSUMPTIONS = ('bootstraps that lack a class are not part of the property '
               '(the solver of UoI_L1Logistic refuses them)',)
# what degenerate data may not change
CLAUSES = ('C10', 'C01.supports', 'C01.duplicates', 'C01.sweep.shape',
           'C02.offsupport', 'C02.winner', 'C02.median', 'C02.unfitted')


def constant(s, seed, label):
    r = np.random.RandomState(seed)
    which, kw = relate.settings(s['fam'], seed, s['std'], s['icpt'])
    ytype = relate.YTYPE[which]
    n, p = int(r.randint(2, 30)), int(r.randint(1, 5))
    X = np.round(r.randn(n, p) * 64) / 64
    value = {'zero': 0, 'one': 1, 'three': 3, 'tenth': .1, 'big': 1e8 + .1,
             'negative': -7, 'text': 'b', 'tiny': 3e-12}[s['kind']]
    y = np.full(n, value)
    if ytype != 'label' or r.randint(2):
        y = y.astype(float) if y.dtype.kind in 'iu' and r.randint(2) else y
    if ytype == 'real' and r.randint(2):
        y = y[:, None]
    Xin = X
    if which in ('lasso', 'enet') and s['fam'] != 'pyc' and not s['icpt'] \
            and r.randint(3) == 0:
        Xin = relate_sparse(X)
    Z = np.round(r.randn(5, p) * 640) / 64
    gen = np.random.RandomState(seed % 1000)
    kw['random_state'] = gen
    out = dict(exc='', shape=[], W=[], b=[], pred=[], mean=[], classes=[],
               untouched=True, draws=0, same=True, m=5, p=p, ytype=ytype,
               value=0 if ytype == 'label' else float(value),
               icpt=s['icpt'], multinomial=s['fam'] == 'binary2',
               label=label)
    sink = []
    cls = fits.recording_class(fits.estimator(which), sink)
    again = r.randint(2)

    def state(g):
        return repr(g.get_state())

    def go():
        est = cls(**kw)
        first = None
        if again:            # the object has been fitted before
            A, b, _ = relate.dyadic(fits.KIND[which], seed, p=p)
            est.fit(A, b)
            del sink[:]
        s0, g0 = state(gen), state(np.random.mtrand._rand)
        est.fit(Xin, y)
        out['untouched'] = (s0 == state(gen) and
                            g0 == state(np.random.mtrand._rand))
        out['draws'] = len(sink)
        first = (np.array(est.coef_), np.array(est.intercept_))
        pred = est.predict(Z)
        mean = est.predict_mean(Z) if ytype == 'count' else []
        est.fit(Xin, y)
        out['same'] = bool(np.array_equal(first[0], est.coef_) and
                           np.array_equal(first[1], est.intercept_))
        return est, pred, mean
    got, exc = core.attempt(go)
    if exc:
        out['exc'] = exc
        return [out]
    est, pred, mean = got
    coef = np.asarray(est.coef_, float)
    out.update(shape=list(coef.shape), W=coef.ravel(),
               b=np.asarray(est.intercept_, float).ravel(),
               mean=np.asarray(mean, float))
    if ytype == 'label':
        out['classes'] = [int(c == value) for c in est.classes_.tolist()]
        pred = [int(c == value) for c in pred.tolist()]
    else:
        pred = np.asarray(pred, float).ravel()
    out['pred'] = pred
    return [out]


def relate_sparse(X):
    from scipy import sparse
    return sparse.csr_matrix(X)


def degenerate(s, seed, label):
    r = np.random.RandomState(seed)
    which, kw = relate.settings(s['fam'], seed, s['std'], s['icpt'])
    kind, mod = s['kind'], fits.KIND[which]
    n, p, K = 40, 4, 1
    if mod == 'multinomial':
        n, p, K = 60, 3, 3
    if mod == 'logistic':
        n, K = 48, 2
    sd = seed % (1 << 30)
    if kind == 'onefeature':
        p = 1
    if kind == 'wide':
        n, p = (24, 30) if mod == 'linear' else (n, n + 6)
    if kind == 'tiny':
        n, p = (9, 2) if mod in ('linear', 'poisson') else (n // 2, 2)
    X, y = fits.make_data(mod, n, p, sd, classes=max(K, 2))
    if kind == 'constfeature':
        X[:, r.randint(p)] = [1., 2.5, -3., .1][r.randint(4)]
    elif kind == 'zerofeature':
        X[:, r.randint(p)] = 0.
    elif kind == 'allthree':
        X[:, r.randint(1, p)] = 0.
        X[:, 0] = 1.
    elif kind == 'twins':
        i, j = r.permutation(p)[:2]
        X[:, j] = X[:, i]
    elif kind == 'rare':
        if mod == 'linear':
            y = np.zeros(n)
            y[r.permutation(n)[:2]] = [1., -2.][:2]
        elif mod == 'poisson':
            y = np.zeros(n)
            y[r.permutation(n)[:2]] = [1., 3.]
        else:
            y = np.zeros(n, int)
            idx = r.permutation(n)
            for k in range(1, K):
                y[idx[8 * k:8 * k + 8]] = k
    elif kind == 'nearconst':      # (and yet no constant)
        y = 1e4 + 1e-2 * y
    elif kind == 'small':
        y = 1e-12 * y
    elif kind == 'onereg':
        kw['n_C' if mod in ('logistic', 'multinomial') else 'n_lambdas'] = 1
    elif kind == 'oneboot':
        kw.update(n_boots_sel=1, n_boots_est=1, stability_selection=1.)
    kw['estimation_score'] = {
        'linear': ['r2', 'BIC', 'AIC'], 'poisson': ['log', 'BIC', 'AIC'],
        'logistic': ['acc', 'log', 'BIC'],
        'multinomial': ['acc', 'log', 'BIC']}[mod][r.randint(3)]
    if kind == 'onetest':
        # a single held out sample (r2 needs two)
        kw.update(estimation_frac=(n - 1.) / n, selection_frac=(n - 1.) / n)
        kw['estimation_score'] = {'linear': 'BIC'}.get(mod, 'log')
    if mod == 'poisson':
        kw.update(max_iter=200)       # (coordinate descent is slow there)
    if mod in ('logistic', 'multinomial'):
        kw.update(tol=1e-5, eps=5e-2)
        for k in range(max(K, 2)):       # every bootstrap has every class
            while (y == k).sum() < 7 and kind != 'rare':
                y[r.randint(n)] = k
    strat = y if mod in ('logistic', 'multinomial') and kind in (
        'tiny', 'rare') and kind != 'onetest' else None
    case = fits.fit_case(which, X, y, kw, stratify=strat, label=label,
                         kkt=False, path=False)
    return [case]


def run(check):
    deep = check.thorough
    check.model('Degenerate', 'Degenerate4.cfg' if deep else None)
    scns = check.scenarios('Degenerate', 'DegenerateScn.cfg')
    r = np.random.RandomState(check.seed % (1 << 31))
    const, rest = [], []
    for rep in range(1 if not deep else 12):
        for s in scns:
            seed = int(r.randint(1 << 30))
            label = ' '.join('%s=%s' % kv for kv in sorted(s.items())) \
                + ' seed=%d' % seed
            if s['case'] == 'constant':
                const.append((constant, (s, seed, label), label))
            elif deep or r.rand() < .5 or s['kind'] in ('nearconst', 'small'):
                rest.append((degenerate, (s, seed, label), label))
    r.shuffle(rest)
    fits.install()
    check.validate('NullTrace', core.record(const), only='C10')
    check.validate('FitTrace', core.record(rest, timeout=120), only=CLAUSES)
