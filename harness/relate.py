"""Pairs of fits of the same data in other units, labels, representations."""
import numpy as np

import core
import fits

FAMILIES = {
    'lasso': ('lasso', {}), 'pyc': ('lasso', {'solver': 'pyc'}),
    'enet': ('enet', {'alphas': [.9, .4]}),
    'logistic': ('logistic', {}), 'multinomial': ('multinomial', {}),
    'poisson': ('poisson', {}), 'poissoncd': ('poisson', {'solver': 'cd'}),
    'binary2': ('logistic', {'multi_class': 'multinomial'}),
    'free': ('multinomial', {'shared_support': False}),
}
YTYPE = {'lasso': 'real', 'enet': 'real', 'logistic': 'label',
         'multinomial': 'label', 'poisson': 'count'}
# agreement of sweeps, of estimates
TOL = {'real': ('1e-5', '1e-5'), 'label': ('1e-2', '2e-2'),
       'count': ('1e-3', '2e-3')}


def dyadic(kind, seed, n=64, p=5, classes=3):
    """Data which are multiples of 1/64."""
    r = np.random.RandomState(seed)
    X = np.round(r.randn(n, p) * 64) / 64
    X += r.randint(-1, 2, p)
    if p > 1:
        X[:, 1] = np.round((.6 * X[:, 0] + .8 * X[:, 1]) * 64) / 64
    beta = r.choice([-1., 1.], p) * r.uniform(.4, 1.6, p)
    beta[r.permutation(p)[:p // 2]] = 0
    eta = (X - X.mean(axis=0)) @ beta
    if kind == 'linear':
        y = np.round((eta * 2 + r.randn(n) + 3) * 64) / 64
    elif kind == 'logistic':
        y = (eta + r.logistic(size=n) * .8 > 0).astype(int)
        y[:4] = [0, 0, 1, 1]
    elif kind == 'multinomial':
        B = r.randn(p, classes) * (r.rand(p, 1) < .7)
        y = np.argmax((X - X.mean(axis=0)) @ B
                      + r.gumbel(size=(n, classes)), axis=1)
        y[:2 * classes] = np.tile(range(classes), 2)
    else:
        y = r.poisson(np.exp(.7 + .5 * eta / max(eta.std(), .1))
                      ).astype(float)
    Z = np.round(r.randn(14, p) * 96) / 64
    Z[10:] *= np.array([[3], [10], [30], [100]])
    Z[10:] = np.round(Z[10:])        # (far away: for the link function only)
    return X, y, Z


def settings(fam, seed, std, icpt, **more):
    which, kw = FAMILIES[fam]
    kw = dict(kw)
    kw.update(n_boots_sel=3, n_boots_est=3, random_state=seed % 1000,
              standardize=std, fit_intercept=icpt, selection_frac=.75,
              estimation_frac=.75,
              stability_selection=[1., .5, [.4, 1.]][seed % 3])
    kind = fits.KIND[which]
    if kind in ('logistic', 'multinomial'):
        kw.update(n_C=4, tol=1e-8, max_iter=20000, eps=1e-2)
    elif kind == 'poisson':
        kw.update(n_lambdas=4, tol=1e-9, max_iter=50000, eps=2e-2)
    else:
        kw.update(n_lambdas=5, tol=1e-11, max_iter=200000, eps=1e-2)
    kw.update(more)
    return which, kw


def observe(which, kw, X, y, Z, labels=None, stratify=None):
    """Fit and write down the model and its predictions for Z."""
    out = dict(exc='', W=[], b=[], shape=[], sweeps=[], supports=[],
               scores=[], pred=[], proba=[], mean=[], classes=[],
               X=np.asarray(fits.dense(Z), float),
               xabs=abs(fits.dense(X)).max(axis=0).astype(float), wscale=0.)
    sink = []

    def go():
        est = fits.recording_class(fits.estimator(which), sink)(**kw)
        if stratify is None:
            est.fit(X, y)
        else:
            est.fit(X, y, stratify=stratify)
        return est
    est, exc = core.attempt(go)
    if exc:
        out['exc'] = exc.split(':')[0]
        return out

    def predictions():
        pred = est.predict(Z)
        proba, mean = [], []
        if labels is not None:
            proba = est.predict_proba(Z)
        elif which == 'poisson':
            mean = est.predict_mean(Z)
        return np.asarray(pred), np.asarray(proba), np.asarray(mean)
    got, exc = core.attempt(predictions)
    if exc:
        out['exc'] = 'predict ' + exc.split(':')[0]
        return out
    pred, proba, mean = got
    coef = np.asarray(est.coef_, float)
    if labels is not None:
        names = list(labels)
        out['classes'] = [names.index(c) + 1 if c in names else 0
                          for c in est.classes_.tolist()]
        pred = [names.index(c) + 1 if c in names else 0
                for c in pred.tolist()]
        if proba.ndim != 2:
            proba = np.zeros((0, 0))
    else:
        pred = pred.astype(float).ravel()
    sup = np.atleast_2d(np.asarray(getattr(est, 'supports_', [])))
    out.update(
        W=coef.ravel(), b=np.asarray(est.intercept_, float).ravel(),
        shape=list(coef.shape), pred=pred, proba=proba, mean=mean.ravel(),
        sweeps=[s[-1] for s in sink],
        supports=[[bool(v) for v in row] for row in sup] if sup.size else [],
        scores=np.asarray(getattr(est, 'scores_', np.zeros((0, 0))), float))
    # the size coefficients have in the units of the first fit
    s = fits.dense(X).astype(float)
    s = s.std(axis=0) if kw['standardize'] else np.ones(s.shape[1])
    w = abs(coef.reshape(-1, s.size)) * np.where(s > 0, s, 1)
    out['wscale'] = float(w.max() / max(s[s > 0].min(), 1e-300)) \
        if (s > 0).any() else 0.
    return out


def none(p):
    return dict(perm=list(range(p)), sign=[1] * p, scale=[1.] * p,
                shift=[0.] * p, ys=1., yt=0., reversed=False)


def pair(prop, fam, which, first, second, p, K, change, exact, label,
         labels=0, tol=None, etol=None):
    t = TOL[YTYPE[which]]
    return dict(prop=prop, p=p, K=K, first=first, second=second,
                change=change, exact=bool(exact), ytype=YTYPE[which],
                tol=tol or t[0], etol=etol or t[1], labels=labels,
                label=label)
