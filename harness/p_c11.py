"""C11: the regularization path."""
import numpy as np

import core
import fits


def path_case(seed):
    r = np.random.RandomState(seed)
    which = ['lasso', 'enet', 'logistic', 'multinomial', 'poisson'][seed % 5]
    kind = fits.KIND[which]
    n, p = int(r.randint(16, 50)), int(r.randint(1, 7))
    K = int(r.randint(3, 5)) if which == 'multinomial' else 2
    std, icpt = bool(r.rand() < .5), bool(r.rand() < .5)
    X, y = fits.make_data(kind, n, p, seed, classes=K, scale=True,
                          offset=float(r.choice([0., 1.])))
    if which in ('logistic', 'multinomial'):
        y = r.permutation(np.minimum(np.arange(n) % (K + 2), K - 1))
    num = int(r.choice([1, 2, 3, 11, 30]))
    kw = dict(n_boots_sel=1, n_boots_est=1, random_state=seed,
              standardize=std, fit_intercept=icpt,
              eps=float(r.choice([1e-3, 1e-2, .5, 1e-4])),
              estimation_frac=.8, selection_frac=.8)
    if which in ('logistic', 'multinomial'):
        kw.update(n_C=num, tol=.1, estimation_score='acc')
        if which == 'logistic' and r.rand() < .4:
            kw['multi_class'] = 'multinomial'
    else:
        kw.update(n_lambdas=num)
        if which == 'lasso':
            if icpt and r.rand() < .3:
                kw['solver'] = 'pyc'
        else:
            kw['alphas'] = [[.5], [1., .1], [.2, .9, .5],
                            np.array([.7, .3]), [.03], np.array([.08, 1., .01])
                            ][r.randint(6)]
    return [fits.fit_case(
        which, X, y, kw, kkt=False, stratify=y if K > 1 and which in
        ('logistic', 'multinomial') else None, tols=dict(rtol='1e-8'),
        label='path %s seed=%d num=%d std=%s icpt=%s' % (
            which, seed, num, std, icpt))]


def run(check):
    deep = check.thorough
    s0 = 10000 * (check.seed % 500)
    tasks = [(path_case, (s0 + i,), 'path %d' % i)
             for i in range(4000 if deep else 300)]
    fits.install()
    check.validate('FitTrace', core.record(tasks), only='C11')
    check.validate('FitTrace', fits.lattice(
        check, 200 if deep else 20, offset=11), only='C11')
