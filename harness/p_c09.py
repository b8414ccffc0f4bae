"""C09: the intercept calibrates the model on the full data."""
import numpy as np

import core
import fits


def cal_case(seed):
    """Unusual locations and scales, and few or no selected features."""
    r = np.random.RandomState(seed)
    which = ['lasso', 'enet', 'logistic', 'multinomial', 'poisson'][seed % 5]
    kind = fits.KIND[which]
    n, p = int(r.randint(24, 60)), int(r.randint(1, 6))
    K = int(r.randint(3, 5)) if which == 'multinomial' else 2
    std, icpt = bool(r.rand() < .6), bool(r.rand() < .8)
    glm = which in ('logistic', 'multinomial')
    X, y = fits.make_data(kind, n, p, seed, classes=K)
    noise = r.rand() < .4
    if noise:
        y = r.permutation(y)
    if glm:
        y = np.minimum(np.arange(n) % (K + 1), K - 1)
        y = y[np.argsort(np.argsort(X[:, 0] + r.randn(n)))] if not noise \
            else r.permutation(y)
    shift = scale = 1.
    if std:
        scale = 2. ** r.randint(-8, 9, p)
        shift = r.choice([0., 1., 30.], p)
        X = X * scale + shift * scale
        if p > 1 and r.rand() < .3:
            X[:, -1] = 3.     # a constant feature
    else:
        X = X + r.choice([0., .5, -1.], p)
    if glm and r.rand() < .25:
        X[r.randint(n)] *= 10. ** r.randint(1, 7)     # an outlier
    if kind == 'linear':
        y = y * 10. ** r.randint(-2, 3) + r.choice([0., 100.])
    B = int(r.randint(1, 4))
    kw = dict(n_boots_sel=3, n_boots_est=B, random_state=seed,
              standardize=std, fit_intercept=icpt, selection_frac=.8,
              estimation_frac=.8)
    if glm:
        kw.update(n_C=3, tol=1e-4, eps=float(r.choice([.9, .1])),
                  shared_support=bool(r.rand() < .5),
                  estimation_score=str(r.choice(['acc', 'log', 'BIC'])))
        if which == 'logistic' and r.rand() < .4:
            kw['multi_class'] = 'multinomial'
    else:
        kw.update(n_lambdas=3, eps=float(r.choice([.9, .1])))
        if which == 'poisson':
            kw['solver'] = str(r.choice(['lbfgs', 'cd']))
        elif which == 'lasso' and icpt and r.rand() < .3:
            kw['solver'] = 'pyc'
    tols = dict(caltol=repr(1e-7 * float(1 + abs(y).max()))) if not glm \
        else dict(caltol='1e-4')
    return [fits.fit_case(
        which, X, y, kw, kkt=False, path=False, tols=tols, sweeps=False,
        stratify=y if glm else None,
        label='calibration %s seed=%d std=%s icpt=%s' % (
            which, seed, std, icpt))]


def run(check):
    deep = check.thorough
    s0 = 10000 * (check.seed % 500)
    tasks = [(cal_case, (s0 + i,), 'calibration %d' % i)
             for i in range(5000 if deep else 1200)]
    fits.install()
    check.validate('FitTrace', core.record(tasks), only='C09')
    check.validate('FitTrace', fits.lattice(
        check, 200 if deep else 20, offset=9), only='C09')
