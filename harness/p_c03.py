"""C03: bootstraps are train/held-out splits, scored on the right part."""
import numpy as np

import core
import fits


def split_case(seed):
    """A small fit with unusual sizes, fractions and groups."""
    r = np.random.RandomState(seed)
    which = ['lasso', 'enet', 'poisson', 'logistic'][seed % 4]
    n = int(r.randint(14, 75))
    p = int(r.randint(1, 4))
    kind = fits.KIND[which]
    X, y = fits.make_data(kind, n, p, seed)
    strat = None
    if which == 'logistic':
        y = r.permutation(np.arange(n) % 2)
        strat = y
    elif seed % 3 == 0:
        k = int(r.randint(2, 4))
        strat = r.permutation(np.arange(n) % k) + 1
        if seed % 2:
            strat = np.where(strat == 1, 7, 2)
    kw = dict(n_boots_sel=int(r.randint(1, 4)), n_boots_est=int(
        r.randint(1, 4)), random_state=seed,
        selection_frac=float(r.choice([.5, .6, .7, .75, .8, .33])),
        estimation_frac=float(r.choice([.5, .65, .7, .8, .4])),
        standardize=bool(r.rand() < .5), fit_intercept=bool(r.rand() < .5))
    if r.rand() < .5:
        kw['estimation_target'] = str(r.choice(['train', 'test']))
    if which == 'logistic':
        kw.update(n_C=2, tol=1e-3, estimation_score=str(r.choice(
            ['acc', 'log', 'BIC'])))
    elif which == 'poisson':
        kw.update(n_lambdas=2, estimation_score=str(r.choice(
            ['log', 'BIC'])))
    else:
        kw.update(n_lambdas=2, estimation_score=str(r.choice(
            ['r2', 'AIC'])))
    return [fits.fit_case(which, X, y, kw, stratify=strat, kkt=False,
                          path=False, label='split %s seed=%d n=%d strat=%s '
                          'frac=%s/%s' % (which, seed, n, strat is not None,
                                          kw['selection_frac'],
                                          kw['estimation_frac']))]


def run(check):
    deep = check.thorough
    check.model('MCSplit')
    s0 = 10000 * (check.seed % 500)
    tasks = [(split_case, (s0 + i,), 'split %d' % i)
             for i in range(3000 if deep else 240)]
    fits.install()
    check.validate('FitTrace', core.record(tasks), only='C03')
    check.validate('FitTrace', fits.lattice(
        check, 300 if deep else 20, offset=3), only='C03')
