"""Recording the penalized solvers (SolverTrace.tla)."""
import numpy as np

import core
import fits


def designs(r, kind, n=None, p=None, K=2, std=False, icpt=False):
    big = not n and not p and r.randint(20) == 0
    n = n or int(r.randint(100, 400) if big else r.randint(12, 40))
    p = p or int(r.randint(12, 24) if big else r.randint(1, 7))
    X, y = fits.make_data(kind, n, p, int(r.randint(1 << 30)), classes=K,
                          scale=std, offset=1. * std)
    shape = r.randint(6)
    if p > 1 and shape == 0:
        X[:, -1] = X[:, 0]            # duplicate
    elif p > 1 and shape == 1 and kind != 'poisson' and (std or not icpt):
        # (next to an intercept the orthant-wise search can get stuck, with a
        # warning, at the kink of such a feature)
        X[:, 0] = 2.                  # constant
    elif p > 1 and shape == 2:
        X[:, 1] = 0.
    elif shape == 3:
        X = np.round(X)
    if kind in ('logistic', 'multinomial'):
        K = 2 if kind == 'logistic' else K
        flip = r.rand(n) < .2         # not separable
        y = np.where(flip, r.randint(0, K, n), y)
        y[:K] = range(K)
        y[K:2 * K] = range(K)
    elif kind == 'poisson' and np.unique(y).size == 1:
        y[0] += 1
    return X, y


def case(prop, model, X, y, K, exc, W, b, l1, l2, icpt, std, tol, free=None,
         sw=None, cw=None, nclass=2, **kw):
    n, p = X.shape
    c = dict(kind='kkt', prop=prop, model=model, X=X,
             y=[int(v) for v in y] if model != 'linear' else y, K=K, exc=exc,
             W=W, b=b, l1=float(l1), l2=float(l2), icpt=bool(icpt),
             std=bool(std), tol=float(tol),
             free=(np.ones((K, p), bool) if free is None
                   else np.asarray(free, bool).reshape(K, p)),
             sw=np.ones(n) if sw is None else np.asarray(sw, float),
             cw='none', cwvals=[], nclass=nclass)
    if cw is not None:
        if isinstance(cw, str):
            c['cw'] = cw
        else:
            c['cw'] = 'values'
            c['cwvals'] = [float(cw[k]) for k in range(nclass)]
    c.update(kw)
    return c


def wb(est, exc, K, p):
    if exc:
        return np.zeros((K, p)), np.zeros(K)
    return (np.atleast_2d(np.array(est.coef_, float)),
            np.array(est.intercept_, float).ravel()
            if np.ndim(est.intercept_) else
            np.full(K, float(est.intercept_)))


def poisson_cases(seed, num):
    from pyuoi.linear_model.poisson import Poisson
    r = np.random.RandomState(seed)
    out = []
    for i in range(num):
        std, icpt = bool(r.rand() < .4), bool(r.rand() < .6)
        X, y = designs(r, 'poisson', std=std, icpt=icpt)
        solver = str(r.choice(['lbfgs', 'cd']))
        if solver == 'cd' and X.shape[1] > 1 and (X[:, 0] == X[:, -1]).all():
            X[:, -1] += 1. * r.randn(len(X))    # (descent would be very slow)
        if not std:
            X = X * .7
        n, p = X.shape
        sw = None
        if r.rand() < .4:
            sw = [r.uniform(.2, 3., n), r.randint(0, 3, n).astype(float)][
                r.randint(2)]
            if (sw * y).sum() == 0 or np.unique(y[sw > 0]).size < 2:
                sw = None
        warm = bool(r.rand() < .5)
        tol = float(r.choice([1e-5, 1e-7]))
        # the descent stops at a small step: the gradient which is left is
        # up to the curvature times the step
        curv = (3. * p * max(1., (y if sw is None else sw * y).mean()
                             * (9. if std else (X ** 2).max())))
        if solver == 'cd':
            tol /= 100.
        lr = float(r.choice([1., 1., .5, .1, 0.]))
        est = Poisson(fit_intercept=icpt, standardize=std, warm_start=warm,
                      tol=tol, solver=solver, max_iter=20000, l1_ratio=lr)
        g = abs(X.T @ (y - y.mean())).max() / n
        k = int(r.randint(1, 4))
        if warm and r.rand() < .2:
            core.attempt(est.fit, X, y * 0)
        for a in g * 10. ** r.uniform(-2.5, .3, k):
            a = float(a)
            if r.rand() < .1:
                a = 10. * a
            if r.rand() < .3:
                lr = float(r.choice([1., .5, .05]))
            if warm and r.rand() < .3 and sw is None:
                # other data for the same object
                y = r.permutation(y)
            est.set_params(alpha=a, l1_ratio=lr)
            args = (X, y) if sw is None else (X, y, sw)
            _, exc = core.attempt(est.fit, *args)
            W, b = wb(est, exc, 1, p)
            out.append(case(
                'C15', 'poisson', X, y, 1, exc, W, b, a * lr, a * (1 - lr),
                icpt, std, max(60., curv) * tol if solver == 'cd'
                else 3 * tol + 1e-5, sw=sw,
                label='Poisson %s l1_ratio=%g std=%s icpt=%s warm=%s sw=%s '
                'tol=%g seed=%d' % (solver, lr, std, icpt, warm,
                                    sw is not None, tol, seed)))
    return out


def random_mask(r, K, p):
    kind = r.randint(5)
    m = r.rand(K, p) < [.5, .8, .2, 1.1, -1.][kind]
    if r.rand() < .5:
        m = np.tile(m[:1], (K, 1))
    return m


def logistic_cases(seed, num, prop='C15', masks=False):
    from pyuoi.linear_model.logistic import MaskedCoefLogisticRegression
    r = np.random.RandomState(seed)
    out = []
    for i in range(num):
        std, icpt = bool(r.rand() < .4), bool(r.rand() < .6)
        multi = r.rand() < .45
        nclass = int(r.randint(3, 5)) if multi else 2
        X, y = designs(r, 'multinomial' if multi else 'logistic', K=nclass,
                       std=std, icpt=icpt)
        n, p = X.shape
        mc = str(r.choice(['auto', 'multinomial']))
        K = nclass if nclass > 2 or mc == 'multinomial' else 1
        model = 'multinomial' if K > 1 else 'logistic'
        pen = str(r.choice(['l1', 'l2']))
        sw = cw = None
        if r.rand() < .4:
            sw = [r.uniform(.2, 3., n), r.randint(1, 3, n).astype(float)][
                r.randint(2)]
        if r.rand() < .25:
            cw = 'balanced' if r.rand() < .5 else {
                k: float(r.choice([.5, 1., 2., 3.])) for k in range(nclass)}
        warm = bool(r.rand() < .5)
        tol = float(r.choice([1e-3, 1e-6]))
        mask = random_mask(r, K, p) if masks else None
        if mask is not None and r.rand() < .3:
            mask = mask.astype(int)
        est = MaskedCoefLogisticRegression(
            penalty=pen, tol=tol, fit_intercept=icpt, standardize=std,
            class_weight=cw, multi_class=mc, warm_start=warm)
        for a in 10. ** r.uniform(-2.5, -.3, int(r.randint(1, 4))):
            a = float(a)
            if r.rand() < .1:
                a *= 20
            if warm and r.rand() < .3:
                y = r.permutation(y)
            est.set_params(C=1. / a)
            kw = {} if sw is None else dict(sample_weight=sw)
            if mask is not None:
                if warm and r.rand() < .3:
                    mask = random_mask(r, K, p)
                kw['coef_mask'] = mask if K > 1 else mask.ravel()
            _, exc = core.attempt(est.fit, X, y, **kw)
            W, b = wb(est, exc, K, p)
            out.append(case(
                prop, model, X, y, K, exc, W, b,
                a if pen == 'l1' else 0., a if pen == 'l2' else 0., icpt, std,
                (3 * tol if pen == 'l1' else 3 * tol + 2e-3), sw=sw, cw=cw,
                free=mask, nclass=nclass,
                label='Masked %s %s std=%s icpt=%s warm=%s sw=%s cw=%s tol=%g'
                ' mask=%s seed=%d' % (pen, model, std, icpt, warm,
                                      sw is not None, cw, tol,
                                      mask is not None, seed)))
    return out


def sweep_cases(seed, num):
    """Sweeps of parts of the path, in other orders, by the caller."""
    r = np.random.RandomState(seed)
    out = []
    for i in range(num):
        w = ['lasso', 'pyc', 'enet', 'poisson', 'poissoncd', 'logistic',
             'multinomial'][r.randint(7)]
        which = {'pyc': 'lasso', 'poissoncd': 'poisson'}.get(w, w)
        kind = fits.KIND[which]
        nclass = int(r.randint(3, 5)) if which == 'multinomial' else 2
        n, p = int(r.randint(20, 40)), int(r.randint(1, 6))
        X, y = fits.make_data(kind, n, p, int(r.randint(1 << 30)),
                              classes=nclass)
        if which in ('logistic', 'multinomial'):
            y = np.where(r.rand(n) < .2, r.randint(0, nclass, n), y)
            y[:2 * nclass] = list(range(nclass)) * 2
        icpt = True if w == 'pyc' else bool(r.rand() < .6)
        std = bool(r.rand() < .5)
        kw = dict(n_boots_sel=1, n_boots_est=1, random_state=1,
                  fit_intercept=icpt, standardize=std, estimation_frac=.8,
                  selection_frac=.8)
        glm = which in ('logistic', 'multinomial')
        if glm:
            kw.update(n_C=6, tol=1e-6, eps=1e-2)
        else:
            kw.update(n_lambdas=6, tol=1e-9 if kind == 'linear' else 1e-7,
                      max_iter=100000, eps=1e-2)
            if which == 'poisson':
                kw['solver'] = 'cd' if w == 'poissoncd' else 'lbfgs'
            if w == 'pyc':
                kw['solver'] = 'pyc'
            if which in ('enet', 'poisson'):
                kw['alphas'] = [.5, 1.]
        if w != 'pyc':
            kw['warm_start'] = bool(r.rand() < .5)
        est, exc = core.attempt(
            lambda: fits.estimator(which)(**kw).fit(X, y, stratify=y if glm
                                                    else None))
        if exc:
            out.append(dict(kind='sweep', exc=exc))
            continue
        K = nclass if nclass > 2 else 1
        kk = 'multinomial' if K > 1 else kind
        regs = list(est.reg_params_)
        pick = r.permutation(len(regs))[:int(r.randint(1, len(regs) + 1))]
        if w == 'pyc' or r.rand() < .4:
            pick = np.sort(pick)
        sub = [regs[j] for j in pick]
        A = (X - X.mean(axis=0)) / X.std(axis=0) if r.rand() < .5 else X
        yy = y if kind != 'linear' else (y - y.mean()) / y.std()
        coefs, exc = core.attempt(est.uoi_selection_sweep, A, yy, sub)
        coefs = np.zeros((0, 0)) if coefs is None else np.asarray(coefs,
                                                                  float)
        hints = []
        Y = np.eye(K)[yy] if K > 1 else np.asarray(yy, float)[:, None]
        if coefs.ndim == 2 and coefs.shape[1] == K * p:
            hints = [fits.icept_hint(kk, A, Y, row.reshape(K, p))
                     if icpt else np.zeros(K) for row in coefs]
        out.append(dict(
            kind='sweep', exc=exc, model=kk, K=K, X=A,
            y=yy if kind == 'linear' else [int(v) for v in yy], regs=sub,
            coefs=coefs, hints=hints, icpt=icpt,
            std=std and which == 'poisson', tol=2e-4 if kind == 'linear'
            else 1e-3 if kind == 'poisson' else 1e-4,
            label='sweep %s std=%s icpt=%s %d of %d values seed=%d'
            % (w, std, icpt, len(sub), len(regs), seed)))
    return out


def agree(prop, what, exc, fits_, cols, tol, label, shift=False):
    (W1, b1), (W2, b2) = fits_ if not exc else (([], []), ([], []))
    return dict(kind='agree', prop=prop, what=what, exc=exc, W1=W1, b1=b1,
                W2=W2, b2=b2, cols=[int(j) + 1 for j in cols], tol=tol,
                shift=shift, label=label)


def mask_cases(seed, num):
    """Pairs of masked fits which are the same model."""
    from scipy import sparse
    from pyuoi.linear_model.logistic import MaskedCoefLogisticRegression
    r = np.random.RandomState(seed)
    out = []
    for i in range(num):
        std, icpt = bool(r.rand() < .4), bool(r.rand() < .6)
        nclass = int(r.randint(2, 5))
        mc = str(r.choice(['auto', 'multinomial']))
        K = nclass if nclass > 2 or mc == 'multinomial' else 1
        n, p = int(r.randint(30, 60)), int(r.randint(2, 6))
        X = r.randn(n, p)
        if std:
            X = (X + r.randn(p)) * 10. ** r.uniform(-1, 1, p)
        y = np.argmax(X[:, [j % p for j in range(nclass)]] * .5
                      + r.gumbel(size=(n, nclass)), axis=1)
        y[:3 * nclass] = list(range(nclass)) * 3
        y = r.permutation(y)
        pen = str(r.choice(['l1', 'l2']))
        a = float(10. ** r.uniform(-2, -1))
        tol = 1e-3 if pen == 'l1' else 5e-3
        kw = dict(penalty=pen, tol=1e-8, fit_intercept=icpt, C=1. / a,
                  standardize=std, multi_class=mc)
        label = 'mask pair %%s %s K=%d std=%s icpt=%s seed=%d' % (
            pen, K, std, icpt, seed)

        def fit(X, y, **more):
            est = MaskedCoefLogisticRegression(**kw)
            _, exc = core.attempt(est.fit, X, y, **more)
            return exc, wb(est, exc, K, X.shape[1])

        def pair(what, one, two, cols, tol=tol):
            out.append(agree('C14', what, one[0] or two[0],
                             (one[1], two[1]), cols, tol, label % what,
                             K % 2 == 0 and pen == 'l1'))

        col = r.rand(p) < .5
        col[r.randint(p)] = False
        keep = np.nonzero(col)[0]
        m = np.tile(col, (K, 1)) if K > 1 else col
        m = m.astype([bool, int, float][r.randint(3)])
        masked = fit(X, y, coef_mask=m)
        if keep.size:
            pair('columns', masked, fit(X[:, keep], y), keep)
        full = np.ones((K, p) if K > 1 else p, [bool, int][r.randint(2)])
        plain = fit(X, y)
        pair('all', plain, fit(X, y, coef_mask=full), range(p))
        # other values in the masked columns
        X2 = X.copy()
        X2[:, ~col] = ((r.randn(n, p) + r.randn(p))
                       * 10. ** r.uniform(-1, 1))[:, ~col]
        if r.rand() < .3:
            X2[:, ~col] = 0.
        pair('values', masked, fit(X2, y, coef_mask=m), range(p))
        # no feature at all
        none = fit(X, y, coef_mask=full * 0)
        cnt = np.bincount(y, minlength=nclass) / n
        b = (np.zeros(K) if not icpt else np.log(cnt) if K > 1
             else np.log(cnt[1:] / cnt[0]))
        pair('none', none, ('', (np.zeros((K, p)), b)), range(p), 1e-3)
        # weights are repetitions (standardization is not weighted)
        if not std:
            w = r.randint(1, 4, n)
            rep = np.repeat(np.arange(n), w)
            scale = w.sum() / n
            kw['C'] = scale / a
            more = {} if r.rand() < .5 else dict(coef_mask=m)
            long = fit(X[rep], y[rep], **more)
            # the loss is a mean over the samples, whatever their weights
            kw['C'] = 1. / a
            short = fit(X, y, sample_weight=[w, w.astype(float),
                                             list(map(float, w))][
                r.randint(3)], **more)
            pair('weights', short, long, range(p))
            pair('sparse', plain, fit(sparse.csr_matrix(X), y), range(p))
            pair('sparse.masked', masked,
                 fit(sparse.csr_matrix(X), y, coef_mask=m), range(p))
    return out
