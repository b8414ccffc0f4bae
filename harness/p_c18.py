"""C18: fits of the non-negative matrix factorization."""
import contextlib

import numpy as np
from sklearn.base import BaseEstimator

import core

ASSUMPTIONS = (
    'a clustering that finds no cluster leaves no bases to report: the error '
    'that normalizing an empty matrix raises is accepted then',
    'the ranks are given (the documented default of ranks is not usable)')
STUB = {}


class StubNMF(BaseEstimator):
    """Answers with prepared bases, in the order new matrices come in."""

    def __init__(self, n_components=None, random_state=None, key=0):
        self.n_components, self.random_state = n_components, random_state
        self.key = key

    def fit(self, X, y=None):
        s = STUB[self.key]
        b = s['index'].setdefault(np.array(X, float).tobytes(),
                                  len(s['index']))
        H = s['bases'][self.n_components]
        self.components_ = H[b % len(H)].copy()
        s['calls'].append((np.array(X), self.n_components,
                           self.components_.copy()))
        return self

    def fit_transform(self, X, y=None):
        self.fit(X)
        return np.ones((len(X), self.n_components))


class StubCluster(BaseEstimator):
    def __init__(self, key=0):
        self.key = key

    def fit(self, X, y=None):
        s = STUB[self.key]
        s['seen'] = np.array(X)
        self.labels_ = s['given'] = s['label'](len(X))
        return self

    def fit_predict(self, X, y=None):
        return self.fit(X).labels_


class StubReg(BaseEstimator):
    def __init__(self, value=0):
        self.value = value

    def fit(self, A, b):
        self.coef_ = np.full(A.shape[1], self.value)
        return self


def squares(A, axis=0):
    return (A ** 2).mean(axis=axis)


CONS = dict(default=None, mean=np.mean, median=np.median, max=np.max,
            squares=squares)


@contextlib.contextmanager
def recorded():
    """What scikit-learn is given and answers."""
    from sklearn.cluster import DBSCAN
    from sklearn.decomposition import NMF
    ft, fit = NMF.fit_transform, DBSCAN.fit
    log = dict(calls=[], used=[], seen=None, given=None, cluster=None)

    def fit_transform(self, X, *a, **kw):
        X0 = np.array(X)
        W = ft(self, X, *a, **kw)
        log['calls'].append((X0, self.n_components, self.components_.copy()))
        log['used'].append(dict(
            solver=self.solver, loss=str(self.beta_loss), iters=self.max_iter,
            tol=self.tol, init=str(self.init)))
        return W

    def dbscan(self, X, *a, **kw):
        log['seen'] = np.array(X)
        out = fit(self, X, *a, **kw)
        log['given'] = np.array(self.labels_)
        log['cluster'] = dict(eps=self.eps, least=self.min_samples,
                              metric=self.metric)
        return out
    NMF.fit_transform, DBSCAN.fit = fit_transform, dbscan
    try:
        yield log
    finally:
        NMF.fit_transform, DBSCAN.fit = ft, fit


def bases(r, kind, k, B, p):
    out = []
    H0 = r.randint(0, 4, size=(k, p)).astype(float)
    H0[H0.sum(1) == 0, 0] = 1
    for b in range(B):
        if kind == 'tie':                   # perfectly reproducible
            H = np.zeros((k, p))
            H[np.arange(k), r.permutation(p)[:k] if b == 0 else
              out[0].argmax(1)[r.permutation(k)]] = 1.
        elif kind == 'near':
            H = H0 * (1 + 10. ** -r.randint(1, 4) * r.rand(k, p))
        else:
            H = r.randint(0, 5, size=(k, p)).astype(float)
            H *= r.choice([1., .25, 100.], size=(k, 1))
            if kind == 'zeros':
                H[r.randint(k, size=r.randint(0, 2))] = 0
            else:
                H[H.sum(1) == 0, 0] = 1
        out.append(H * r.choice([1., 1., 1e-9, 1e9]))
    if not any(h.any() for h in out):
        out[0][0, 0] = 1
    return out


def ranked(r, how, p):
    top = min(p, 4)
    if how == 'int':
        k = int(r.randint(2, top + 1))
        return k, list(range(2, k + 1))
    if how == 'one':
        k = [int(r.randint(1, top + 1))]
        return k, k
    ks = sorted(int(x) + 1 for x in r.permutation(top)[:r.randint(2, 4)])
    if how == 'reversed':
        ks = ks[::-1]
    form = r.randint(4)
    return [ks, tuple(ks), np.array(ks), ks][form], ks


def rows_of(calls, X):
    at = {}
    for i, row in enumerate(X.astype(float)):
        at.setdefault(row.tobytes(), i + 1)
    return [dict(rows=[at.get(row.tobytes(), 0) for row in A.astype(float)],
                 k=int(k), H=H) for A, k, H in calls]


def labeller(r, kind):
    def label(m):
        if kind == 'none':
            return np.full(m, -1)
        if kind == 'single':
            return np.zeros(m, int)
        c = [0, 1, 2] if kind != 'gaps' else [[7, 2, 5], [-2, 3, -9]][
            r.randint(2)]
        if kind != 'all':
            c = c + [-1]
        return r.choice(c, m)
    return label


def finish(out, uoi, X, exc, r, nnreg=None):
    out['exc'] = exc
    if exc:
        return [out]
    out.update(boots=np.asarray(uoi.bootstraps_) + 1, pre=uoi.bases_samples_,
               labels=uoi.bases_samples_labels_, comps=uoi.components_)
    if out['dissim']:
        out['gamma'] = np.asarray(uoi.dissimilarity_, float)
    if nnreg is not None and len(uoi.components_):
        out['regressed'] = bool(np.all(uoi.transform(X[:3]) == nnreg))
    return [out]


def stub(s, seed, label):
    from pyuoi.decomposition import UoI_NMF, UoI_NMF_Base
    r = np.random.RandomState(seed)
    n, p = int(r.randint(10, 16)), int(r.randint(2, 7))
    B = int(r.randint(2, 5))
    if not s['dissim'] and r.randint(3) == 0:
        B = 1
    elif r.randint(40) == 0:
        n, B = int(r.randint(100, 300)), int(r.randint(10, 17))
    X = r.rand(n, p)
    if r.randint(4) == 0:
        X = np.arange(n * p).reshape(n, p)
    given, ks = ranked(r, s['ranks'], p)
    STUB[seed] = st = dict(index={}, calls=[], seen=None, given=[],
                           bases={k: bases(r, s['bases'], k, B, p)
                                  for k in ks},
                           label=labeller(r, s['labels']))
    reg = [None, StubReg(3.), lambda A, b: np.full(A.shape[1], 3.)][
        r.randint(3)]
    cls = dict(base=UoI_NMF_Base, derived=UoI_NMF)[s['cls']]
    kw = dict(n_boots=B, ranks=given, nmf=StubNMF(key=seed),
              cluster=StubCluster(seed), nnreg=reg,
              cons_meth=CONS[s['cons']], use_dissimilarity=s['dissim'],
              random_state=[None, seed % 991, np.random.RandomState(
                  seed % 991)][r.randint(3)])
    out = dict(case='stub', n=n, p=p, B=B, ranks=ks, dissim=s['dissim'],
               cons=s['cons'], gamma=[],
               used=[], asked={}, regressed=True, label=label)

    def go():
        uoi = cls(**kw)
        if r.randint(4) == 0:              # fitted before
            uoi.fit(X[::-1] + 1)
            st['index'].clear()
            del st['calls'][:]
        return uoi.fit(X)
    uoi, exc = core.attempt(go)
    out.update(calls=rows_of(st['calls'], X), given=st['given'],
               nothing=bool(st['seen'] is not None and
                            (np.asarray(st['given']) == -1).all()),
               seen=[] if st['seen'] is None else st['seen'])
    res = finish(out, uoi, X, exc, r, None if reg is None else 3.)
    del STUB[seed]
    return res


def real(s, seed, label):
    from pyuoi.decomposition import UoI_NMF, UoI_NMF_Base
    from sklearn.cluster import DBSCAN
    from sklearn.decomposition import NMF
    r = np.random.RandomState(seed)
    n, p, B = int(r.randint(12, 20)), int(r.randint(4, 7)), int(
        r.randint(2, 5))
    k0 = int(r.randint(1, 4))
    X = r.randint(0, 4, (n, k0)) @ r.randint(0, 3, (k0, p)) \
        + .05 * r.rand(n, p)
    given, ks = ranked(r, ['list', 'int', 'reversed'][r.randint(3)], 4)
    kw = dict(n_boots=B, ranks=given, cons_meth=CONS[s['cons']],
              use_dissimilarity=s['dissim'], random_state=seed % 991)
    asked = dict(solver='mu', loss='kullback-leibler', iters=400, tol=1e-4,
                 init='random')
    want = dict(eps=.5, least=max(B // 2, 1), metric='euclidean')
    if s['cluster'] == 'given':
        want = dict(eps=.3, least=1, metric='cosine')
        kw['cluster'] = DBSCAN(eps=.3, min_samples=1, metric='cosine')
    if s['cls'] == 'derived':
        cls = UoI_NMF
        if s['solver'] == 'cd':
            asked = dict(solver='cd', loss='frobenius', iters=50, tol=1e-3,
                         init='nndsvda')
            kw.update(nmf_solver='cd', nmf_beta_loss='frobenius',
                      nmf_max_iter=50, nmf_tol=1e-3, nmf_init='nndsvda')
        elif s['solver'] == 'mu':
            asked = dict(solver='mu', loss='frobenius', iters=70, tol=1e-3,
                         init='random')
            kw.update(nmf_beta_loss='frobenius', nmf_max_iter=70,
                      nmf_tol=1e-3)
        if s['cluster'] == 'default' and r.randint(2):
            want.update(eps=.4, least=1)
            kw.update(db_eps=.4, db_min_samples=1)
    else:
        cls = UoI_NMF_Base
        if s['solver'] == 'cd':
            asked = dict(solver='cd', loss='frobenius', iters=60, tol=1e-4,
                         init='random')
            kw['nmf'] = NMF(solver='cd', max_iter=60, init='random')
    out = dict(case='real', n=n, p=p, B=B, ranks=ks, dissim=s['dissim'],
               cons=s['cons'], gamma=[], regressed=True, label=label)
    with recorded() as log:
        uoi, exc = core.attempt(lambda: cls(**kw).fit(X))
    out.update(calls=rows_of(log['calls'], X), asked=dict(asked, **want),
               given=log['given'],
               seen=[] if log['seen'] is None else log['seen'],
               used=[dict(u, **(log['cluster'] or {})) for u in log['used']])
    if exc and log['given'] is not None and (log['given'] == -1).all():
        return []
    return finish(out, uoi, X, exc, r)


def draws(s, seed, label):
    from pyuoi.decomposition import UoI_NMF, UoI_NMF_Base
    r = np.random.RandomState(seed)
    n, B, p = int(r.randint(20, 40)), 300, 3
    X = r.rand(n, p)
    STUB[seed] = dict(index={}, calls=[], seen=None, given=[],
                      bases={2: bases(r, 'any', 2, 5, p)},
                      label=labeller(r, 'all'))
    cls = dict(base=UoI_NMF_Base, derived=UoI_NMF)[s['cls']]
    uoi, exc = core.attempt(lambda: cls(
        n_boots=B, ranks=[2], nmf=StubNMF(key=seed), cluster=StubCluster(
            seed), use_dissimilarity=False, random_state=seed % 991).fit(X))
    out = dict(case='draws', n=n, B=B, exc=exc, counts=[], label=label)
    if not exc:
        out['counts'] = np.bincount(uoi.bootstraps_.ravel(), minlength=n)
    del STUB[seed]
    return [out]


def run(check):
    deep = check.thorough
    check.model('Nmf', 'Nmf4.cfg' if deep else None)
    if deep:
        check.model('Nmf', 'Nmf5.cfg')
    scns = check.scenarios('Nmf', 'NmfScn.cfg')
    r = np.random.RandomState(check.seed % (1 << 31))
    tasks = []
    for rep in range(1 if not deep else 30):
        for s in scns:
            seed = int(r.randint(1 << 30))
            label = ' '.join('%s=%s' % kv for kv in sorted(s.items())) \
                + ' seed=%d' % seed
            fn = dict(stub=stub, real=real, draws=draws)[s['case']]
            tasks.append((fn, (s, seed, label), label))
    r.shuffle(tasks)
    check.validate('NmfTrace', core.record(tasks))
