"""C20: arrays of the caller."""
import hashlib
import os
import tempfile

import numpy as np
from scipy.sparse import issparse, csr_matrix, csc_matrix

import core
import fits
import relate

ASSUMPTIONS = ('arrays given to constructors (alphas, thresholds) may be kept '
               'as parameters, as is the convention of scikit-learn',)


# ---- memory layouts ------------------------------------------------------
class Arrays:
    """Arrays of the caller, in some layout, writable or not."""

    def __init__(self, values, layout, writable, r):
        self.bases, self.names = [], []
        self.values = {}
        self.tmp = None
        values = dict(values)
        if layout == 'overlap':
            X, y = values.pop('X'), values.pop('y')
            d = np.result_type(X.dtype, y.dtype)
            base = np.concatenate([X, y[:, None], X[:, :1]], axis=1).astype(d)
            self.bases.append(base)
            self.values['X'] = base[:, :X.shape[1]]
            self.values['y'] = base[:, X.shape[1]]
            self.names.append('X and y')
        for k, v in values.items():
            self.values[k] = self._lay(k, np.asarray(v), layout)
        for b in self.bases:
            for a in self._parts(b):
                a.flags.writeable = a.flags.writeable and writable
        for v in self.values.values():
            for a in self._parts(v):
                a.flags.writeable = a.flags.writeable and writable

    @staticmethod
    def _parts(v):
        return [v.data, v.indices, v.indptr] if issparse(v) else [v]

    def _lay(self, name, v, layout):
        v = np.array(v)
        self.names.append(name)
        if layout in ('csr', 'csc') and name in ('X', 'Z'):
            m = (csr_matrix if layout == 'csr' else csc_matrix)(v)
            self.bases.append(m)
            return m
        if v.ndim == 0 or v.dtype.kind in 'OU' or layout in (
                'C', 'csr', 'csc', 'overlap'):
            base = view = np.ascontiguousarray(v)
        elif layout == 'F':
            base = view = np.asfortranarray(v)
        elif layout == 'strided':
            base = np.full([2 * n for n in v.shape], 3).astype(v.dtype)
            view = base[tuple([slice(None, None, 2)] * v.ndim)]
            view[...] = v
        elif layout == 'reversed':
            base = np.array(v[::-1])
            view = base[::-1]
        elif layout == 'memmap':
            if self.tmp is None:
                self.tmp = tempfile.mkdtemp(prefix='uoi-map-')
            path = os.path.join(self.tmp, name)
            with open(path, 'wb') as f:
                f.write(np.ascontiguousarray(v).tobytes())
            base = view = np.memmap(path, v.dtype, 'c', 0, v.shape)
        self.bases.append(base)
        return view

    def digest(self):
        return [digest(b) for b in self.bases]

    def scribble(self, skip):
        for b, n in zip(self.bases, self.names):
            if n not in skip:
                for a in self._parts(b)[:1]:
                    a[...] = a.dtype.type(3)

    def close(self):
        if self.tmp:
            for f in os.listdir(self.tmp):
                os.unlink(os.path.join(self.tmp, f))
            os.rmdir(self.tmp)


def digest(a):
    h = hashlib.sha1()
    for b in Arrays._parts(a):
        h.update(str((b.shape, b.dtype)).encode())
        h.update(np.ascontiguousarray(b).tobytes())
    return h.hexdigest()[:12]


def walk(o, name='', depth=0, seen=None):
    """The arrays in the state of an object."""
    seen = {} if seen is None else seen
    if id(o) in seen or depth > 5:
        return []
    seen[id(o)] = o
    if isinstance(o, np.ndarray):
        return [(name, o)]
    if issparse(o):
        return [(name, b) for b in (o.data, o.indices, o.indptr)
                ] if hasattr(o, 'indptr') else [(name, o.data)]
    if isinstance(o, dict):
        items = o.items()
    elif isinstance(o, (list, tuple)):
        items = enumerate(o)
    elif hasattr(o, '__dict__') and not callable(o) \
            and not isinstance(o, type):
        items = vars(o).items()
    else:
        return []
    out = []
    for k, v in list(items):
        if 'logger' in str(k) or k == 'comm':
            continue
        out += walk(v, '%s.%s' % (name, k), depth + 1, seen)
    return out


def vec(*things):
    out = []
    for t in things:
        if issparse(t):
            t = t.toarray()
        out.append(np.asarray(t, float).ravel()[:40])
    return np.concatenate(out) if out else np.zeros(0)


# ---- programs: (values, params, run) -------------------------------------
def uoi(s, r, seed):
    which, kw = relate.settings(s['entry'], seed, s['std'], s['icpt'])
    kw.update(n_boots_sel=2, n_boots_est=2)
    for k in ('n_lambdas', 'n_C'):
        if k in kw:
            kw[k] = 3
    if s['layout'] in ('csr', 'csc'):
        kw.update(standardize=False)
    X, y, Z = relate.dyadic(fits.KIND[which], seed, n=40, p=3)
    V = dict(X=X, y=y, Z=Z[:10])
    if s['type'] == 'int64':
        V.update(X=np.round(4 * X), Z=np.round(4 * Z[:10]),
                 y=np.round(y))
        for k in V:
            V[k] = V[k].astype(int)
    elif s['type'] == 'float32':
        V.update(X=X.astype(np.float32), Z=V['Z'].astype(np.float32))
        if r.randint(2):
            V['y'] = y.astype(np.float32)
    if s['weights']:
        V['stratify'] = np.arange(len(X)) % 2 if r.randint(2) else \
            (V['X'][:, 0] > np.median(V['X'][:, 0])).astype(int)
    V['stability_selection'] = np.array([1, 2]) if r.randint(2) else \
        np.array([.5, 1.])
    params = ['stability_selection']
    if which == 'enet':
        V['alphas'] = np.array([.4, .9])
        params.append('alphas')
    elif which == 'poisson':
        V['alphas'] = np.array([1., .7])
        params.append('alphas')
    if which in ('lasso', 'enet') and s['layout'] != 'overlap' \
            and r.randint(2):
        V['y'] = V['y'][:, None]

    def run(I, hand):
        k = dict(kw, **{p: I[p] for p in params})
        est = fits.estimator(which)(**k)
        fk = {'stratify': I['stratify']} if 'stratify' in I else {}
        res = []
        for again in (0, 1):
            est.fit(I['X'], I['y'], **fk)
            Zs = I['Z']
            if which == 'poisson' or not issparse(Zs):
                res += [est.predict(Zs)]
            if hasattr(est, 'predict_proba') and not issparse(Zs):
                res += [est.predict_proba(Zs)]
            if hasattr(est, 'predict_mean'):
                res += [est.predict_mean(Zs)]
            if not again:
                for n in ('coef_', 'intercept_', 'supports_', 'estimates_',
                          'scores_'):
                    hand(n, getattr(est, n))
            res += [est.coef_, est.intercept_]
        return est, res
    return V, params, run


def counts(r, X):
    eta = np.clip(X @ r.uniform(-.5, .5, X.shape[1]), -3, 2)
    y = r.poisson(np.exp(eta))
    y[0] += 1
    return y


def solver(s, r, seed):
    n, p = 30, 3
    X = np.round(r.randn(n, p) * 4) if s['type'] == 'int64' else r.randn(n, p)
    X[3, :] = 0
    K = 3 if s['entry'] == 'masked3' else 2
    warm = bool(r.randint(2))
    from pyuoi.linear_model.logistic import MaskedCoefLogisticRegression
    from pyuoi.linear_model.poisson import Poisson
    if s['entry'].startswith('masked'):
        y = r.randint(0, K, n)
        y[:K] = range(K)
        multi = ['auto', 'multinomial'][r.randint(2)]
        V = dict(X=X, y=y, Z=X[:5] + 1)
        if s['entry'] != 'maskedl1':
            mask = r.rand(K if K > 2 or multi != 'auto' else 1, p) < .7
            V['coef_mask'] = mask if len(mask) > 1 else mask[0]
        if s['weights']:
            V['sample_weight'] = r.randint(1, 4, n) * 1.

        def make():
            return MaskedCoefLogisticRegression(
                penalty='l1' if s['entry'] == 'maskedl1' else 'l2', C=.5,
                tol=1e-8, fit_intercept=s['icpt'], standardize=s['std'],
                multi_class=multi, warm_start=warm,
                class_weight=['balanced', None][r2])
        r2 = r.randint(2)
        more = ('coef_mask', 'sample_weight')
    else:
        y = counts(r, X)
        V = dict(X=X, y=y * [1, 1.][r.randint(2)], Z=X[:5] + 1)
        if s['weights']:
            V['sample_weight'] = r.randint(1, 4, n) * 1.

        def make():
            return Poisson(alpha=.05, l1_ratio=.8, standardize=s['std'],
                           fit_intercept=s['icpt'], warm_start=warm,
                           tol=1e-8,
                           solver='cd' if s['entry'][-2:] == 'cd'
                           else 'lbfgs')
        more = ('sample_weight',)
    for k in ('X', 'Z'):
        V[k] = V[k].astype(s['type'])

    def run(I, hand):
        est = make()
        fk = {k: I[k] for k in more if k in I}
        res = []
        for again in (0, 1):
            est.fit(I['X'], I['y'], **fk)
            if not again:
                hand('coef_', est.coef_)
                hand('intercept_', np.asarray(est.intercept_))
            res += [est.coef_, est.intercept_, est.predict(I['Z'])]
            if hasattr(est, 'predict_mean'):
                res += [est.predict_mean(I['Z'])]
            else:
                res += [est.predict_proba(I['Z'])]
            if not again and not issparse(I['X']):
                res.append(est.score(I['X'], I['y'])
                           if hasattr(est, 'score') else 0)
        return est, res
    return V, [], run


def pyclasso(s, r, seed):
    from pyuoi.linear_model.lasso import PycLasso
    X = r.randn(25, 3)
    if s['type'] == 'int64':
        X = np.round(4 * X)
    y = X @ [1., 0, -1] + r.randn(25)
    V = dict(X=X.astype(s['type']), y=y, Z=X[:4],
             alphas=np.array([1., .3, .1, .05][:r.randint(1, 5)]))

    def run(I, hand):
        est = PycLasso(alphas=I['alphas'], tol=1e-9)
        est.fit(I['X'], I['y'])
        hand('coef_', est.coef_)
        a = [est.coef_, est.intercept_, est.predict(I['Z'])]
        est.set_params(alphas=I['alphas'])
        est.fit(I['X'], I['y'])
        return est, a + [est.predict(I['Z'])]
    return V, ['alphas'], run


def minimizer(s, r, seed):
    from pyuoi.lbfgs import fmin_lbfgs
    from pyuoi.lbfgs._lowlevel import LBFGS
    n = int(r.randint(1, 5))
    A = r.randn(n, n)
    shape = [(n,), (1, n), (n, 1)][r.randint(3)]
    x0 = r.randn(*shape)
    if s['type'] == 'int64':
        x0 = np.round(3 * x0).astype(int)
    V = dict(x0=x0, A=A.T @ A + np.eye(n), b=r.randn(n))

    def f(x, g, A, b):
        v = x.ravel()
        g[...] = (A @ v - b).reshape(x.shape)
        return .5 * v @ A @ v - b @ v

    def run(I, hand):
        kw = dict(orthantwise_c=.3) if s['entry'] == 'owlqn' else {}
        seen = []

        def progress(x, g, *rest):
            seen.append(float(np.sum(x)))
        a = fmin_lbfgs(f, I['x0'], progress=progress, args=(I['A'], I['b']),
                       **kw)
        hand('x', a)
        o = LBFGS()
        if kw:
            o.orthantwise_c = .3
            o.linesearch = 'wolfe'
        b = o.minimize(f, I['x0'], None, [I['A'], I['b']])
        c = fmin_lbfgs(f, a, args=(I['A'], I['b']), **kw)
        return dict(a=a, b=b, c=c), [a, b, c, seen[:3]]
    return V, [], run


def decomposition(s, r, seed):
    from pyuoi.decomposition import CUR, UoI_CUR, UoI_NMF
    X = r.rand(16, 5)
    if s['type'] == 'int64':
        X = np.round(X * 20)
    X[X < .1] = 0
    V = dict(X=X.astype(s['type']))
    if s['entry'] == 'cur':
        def run(I, hand):
            est = CUR(max_k=3, random_state=1)
            est.fit(I['X'], c=3.)
            hand('components_', est.components_)
            hand('column_indices_', est.column_indices_)
            res = [est.column_indices_, est.components_]
            if not issparse(I['X']):
                res.append(est.transform(I['X']))
                res.append(est.fit_transform(I['X'], c=2))
            return est, res
    elif s['entry'] == 'uoicur':
        V.update(ks=np.array([1, 2, 3]), cs=np.array([3., 2.5, 4.]))
        if s['weights']:
            V['stratify'] = np.arange(16) % 2
        frac = [1, .75][s['weights'] or r.randint(2)]

        def run(I, hand):
            est = UoI_CUR(n_boots=3, max_k=3, boots_frac=frac,
                          stability_selection=.6, random_state=1)
            fk = {'stratify': I['stratify']} if 'stratify' in I else {}
            est.fit(I['X'], ks=I['ks'], cs=I['cs'], **fk)
            hand('components_', est.components_)
            res = [est.column_indices_, est.components_]
            if not issparse(I['X']):
                res.append(est.transform(I['X']))
                res.append(est.fit_transform(I['X'], ks=I['ks']))
            ks, cs = est.check_ks_and_cs(I['ks'], I['cs'])
            return est, res + [ks, cs]
    else:
        V['ranks'] = np.array([2, 3])
        V['W'] = r.rand(4, 2)
        solv = dict(nmf_solver='cd', nmf_beta_loss='frobenius') \
            if s['entry'] == 'nmfcd' else {}

        def run(I, hand):
            est = UoI_NMF(n_boots=2, ranks=I['ranks'], random_state=1,
                          db_min_samples=1, **solv)
            est.fit(I['X'])
            hand('components_', est.components_)
            hand('bases_samples_', est.bases_samples_)
            W = est.transform(I['X'])
            k = est.components_.shape[0]
            V = I['W'] if k == 2 else np.ones((2, k))
            res = [est.components_, W, est.inverse_transform(V),
                   est.reconstruction_err_]
            res.append(est.fit_transform(I['X']))
            return est, res
    return V, ['ranks'], run


def small(s, r, seed):
    e = s['entry']
    as_int = s['type'] == 'int64'
    if e == 'intercepts':
        from pyuoi.linear_model.base import LinearInterceptFitterNoFeatures
        from pyuoi.linear_model.logistic import (
            fit_intercept_fixed_coef, LogisticInterceptFitterNoFeatures)
        from pyuoi.linear_model.poisson import PoissonInterceptFitterNoFeatures
        X = r.randn(12, 3)
        y, y3 = r.randint(0, 2, 12), r.randint(0, 3, 12)
        y[:2] = 0, 1
        y3[:3] = range(3)
        V = dict(X=np.round(X).astype(int) if as_int else X, y=y, y3=y3,
                 w=r.randn(1, 3), w3=r.randn(3, 3))

        def run(I, hand):
            m = [LogisticInterceptFitterNoFeatures(I['y'], 1),
                 LogisticInterceptFitterNoFeatures(I['y3'], 3),
                 LinearInterceptFitterNoFeatures(I['y3']),
                 PoissonInterceptFitterNoFeatures(I['y3'])]
            return m, [
                fit_intercept_fixed_coef(I['X'], I['w'], I['y'], 1),
                fit_intercept_fixed_coef(I['X'], I['w3'], I['y3'], 3),
                *[f.predict(I['X']) for f in m], m[0].predict_proba(I['X']),
                m[1].predict_proba(I['X']), m[3].predict_mean(I['X'])]
    elif e == 'thresholds':
        from pyuoi.linear_model.utils import (
            intersection, stability_selection_to_threshold as linear)
        from pyuoi.decomposition.utils import (column_select, dissimilarity)
        coefs = r.randint(-1, 2, (3, 4, 5))
        V = dict(t=np.array([3, 1, 2]), s=np.array([1., .5]),
                 coefs=coefs if as_int else coefs * .5,
                 V=np.linalg.qr(r.randn(6, 3))[0],
                 A=r.randint(0, 3, (3, 4)) * (1 if as_int else .5),
                 B=r.randint(0, 3, (3, 4)) * (1 if as_int else .5))

        def run(I, hand):
            t = linear(I['t'], 4)
            hand('thresholds', t)
            res = [t, linear(I['s'], 4)]
            S = intersection(I['coefs'], I['t'])
            hand('supports', S)
            res += [S, intersection(I['coefs'])]
            for sort in (False, True):
                res.append(column_select(I['V'], 3., sort, 5))
            res.append(dissimilarity(I['A'], I['B']))
            return dict(t=t, S=S), res
    elif e == 'generators':
        from pyuoi.datasets import (make_linear_regression,
                                    make_poisson_regression)
        V = dict(beta=np.array([1, 0, 2]) * (1 if as_int else .5))

        def run(I, hand):
            res = []
            for f in (make_linear_regression, make_poisson_regression):
                for icpt in (False, True):
                    X, y, b, i = f(n_samples=7, n_features=3, beta=I['beta'],
                                   include_intercept=icpt, random_state=1)
                    res += [X, y, b, i]
            return None, res
    elif e == 'functions':
        from pyuoi import utils
        from pyuoi.linear_model.poisson import Poisson
        X = np.round(2 * r.randn(6, 3))
        V = dict(X=X.astype(int) if as_int else X, y=r.randint(0, 4, 6),
                 mu=r.randint(1, 5, 6) * (1 if as_int else .5),
                 w=np.round(2 * r.randn(3)))

        def run(I, hand):
            return None, [
                utils.softmax(I['X']), utils.softmax(I['X'], axis=0),
                utils.sigmoid(I['X']),
                utils.log_likelihood_glm('normal', I['y'], I['mu']),
                utils.log_likelihood_glm('poisson', I['y'], I['mu']),
                Poisson.soft_threshold(I['X'], 1.),
                *Poisson.adjusted_response(I['X'], I['y'], I['w'], .5)]
    elif e == 'sweeps':
        from pyuoi.linear_model import UoI_Lasso, UoI_L1Logistic, UoI_Poisson
        X = np.round(2 * r.randn(30, 3))
        V = dict(X=X.astype(int) if as_int else X,
                 y=X[:, 0] + r.randn(30), c=counts(r, X / 4),
                 b=(X[:, 0] + r.randn(30) > 0).astype(int))
        V['b'][:4] = 0, 1, 0, 1

        def run(I, hand):
            res, ests = [], []
            for cls, y, kw in ((UoI_Lasso, 'y', dict(n_lambdas=3)),
                               (UoI_Lasso, 'y', dict(n_lambdas=3,
                                                     solver='pyc')),
                               (UoI_L1Logistic, 'b', dict(n_C=3)),
                               (UoI_Poisson, 'c', dict(n_lambdas=3))):
                est = cls(n_boots_sel=2, n_boots_est=2, random_state=1, **kw)
                est.output_dim = 1
                pars = est.get_reg_params(I['X'], I['y' if y == 'y' else y])
                keep = [dict(d) for d in pars]
                C = est.uoi_selection_sweep(I['X'], I[y], pars)
                hand('sweep', C)
                res += [[list(d.values())[0] for d in pars], C,
                        [pars == keep]]
                ests.append(est)
            return ests, res
    elif e == 'scores':
        from pyuoi.linear_model import UoI_Lasso, UoI_L1Logistic, UoI_Poisson
        from sklearn.linear_model import LinearRegression
        from pyuoi.linear_model.logistic import MaskedCoefLogisticRegression
        from pyuoi.linear_model.poisson import Poisson
        X = np.round(2 * r.randn(30, 3))
        V = dict(X=X.astype(int) if as_int else X, y=X[:, 0] + r.randn(30),
                 c=counts(r, X / 4), b=(X[:, 0] + r.randn(30) > 0).astype(int),
                 support=np.array([True, False, True]),
                 train=np.arange(0, 20), test=np.arange(20, 30))
        V['b'][:4] = 0, 1, 0, 1
        metric = ['AIC', 'AICc', 'BIC'][r.randint(3)]

        def run(I, hand):
            res = []
            for cls, lm, y, ms in (
                    (UoI_Lasso, LinearRegression(), 'y', (metric, 'r2')),
                    (UoI_L1Logistic, MaskedCoefLogisticRegression(C=1.),
                     'b', (metric, 'log', 'acc')),
                    (UoI_Poisson, Poisson(alpha=0.), 'c', (metric, 'log'))):
                for m in ms:
                    est = cls(estimation_score=m)
                    est.output_dim = 1
                    est.classes_ = np.array([0, 1])
                    lm.fit(I['X'][:, I['support']], I[y])
                    score = getattr(est, '_score_predictions', None)
                    try:
                        res.append(score(m, lm, I['X'], I[y], I['support'],
                                         (I['train'], I['test'])))
                    except TypeError:   # (it is not there, or another one)
                        res.append(0.)
            return None, res
    return V, [], run


def program(s, r, seed):
    e = s['entry']
    if e in relate.FAMILIES:
        return uoi(s, r, seed)
    if e.startswith(('masked', 'poissonglm')):
        return solver(s, r, seed)
    return {'pyclasso': pyclasso, 'lbfgs': minimizer, 'owlqn': minimizer,
            'cur': decomposition, 'uoicur': decomposition,
            'nmf': decomposition, 'nmfcd': decomposition}.get(e, small)(
                s, r, seed)


def one(s, seed, label):
    runs = []
    for writable in (True, False):
        r = np.random.RandomState(seed)
        V, params, run = program(s, r, seed)
        A = Arrays(V, s['layout'], writable, r)
        try:
            before = A.digest()
            handed = []

            def hand(name, a):
                if isinstance(a, np.ndarray):
                    handed.append((name, a, digest(a)))
            got, exc = core.attempt(run, A.values, hand)
            e = dict(exc=exc, out=np.zeros(0), shared=[],
                     later=dict(before='', after=''),
                     args=[dict(name=n, before=b, after=a) for n, b, a in
                           zip(A.names, before, A.digest())],
                     handed=[dict(name=n, before=d, after=digest(a))
                             for n, a, d in handed])
            if not exc:
                obj, res = got
                e['out'] = vec(*res)
                state = walk(obj)
                own = [a for n, b in zip(A.names, A.bases) if n not in params
                       for a in Arrays._parts(b)]
                e['shared'] = sorted({n for n, a in state for b in own
                                      if np.may_share_memory(a, b)
                                      and np.shares_memory(a, b)})
                if writable:
                    keep = [a for _, a in state]
                    d1 = ' '.join(digest(a) for a in keep)
                    A.scribble(params)
                    d2 = ' '.join(digest(a) for a in keep)
                    e['later'] = dict(before=hashlib.sha1(
                        d1.encode()).hexdigest(), after=hashlib.sha1(
                        d2.encode()).hexdigest())
            runs.append(e)
        finally:
            A.close()
    return dict(runs=runs, entry=s['entry'], layout=s['layout'], label=label)


def batch(part):
    return [one(*t) for t in part]


def run(check):
    check.model('Ownership')
    if check.thorough:
        check.model('Ownership', 'Ownership4.cfg', workers=4)
    scn = check.scenarios('Ownership', 'OwnershipScn.cfg')
    rng = np.random.RandomState(check.seed + 31)
    if not check.thorough:
        # every entry with every layout
        rng.shuffle(scn)
        groups = {}
        for s in scn:
            groups.setdefault((s['entry'], s['layout']), []).append(s)
        scn = [s for k in sorted(groups) for s in groups[k][:3]]
    items = []
    for i, s in enumerate(scn):
        for v in range(4 if check.thorough else 1):
            items.append((s, check.seed * 1000003 + 31 * i + v,
                          'entry=%(entry)s layout=%(layout)s type=%(type)s '
                          'std=%(std)s icpt=%(icpt)s weights=%(weights)s' % s
                          + ' seed=%d' % (check.seed * 1000003 + 31 * i + v)))
    rng.shuffle(items)
    tasks = [(batch, (items[i:i + 8],), 'ownership %d' % i)
             for i in range(0, len(items), 8)]
    cases = core.record(tasks, timeout=120)
    check.log(len(cases), 'cases')
    for c in cases:
        check.note('entry ' + str(c.get('entry')))
        check.note('layout ' + str(c.get('layout')))
    check.validate('OwnTrace', cases, chunks=4)
