"""C19: transforms of the non-negative matrix factorization."""
import copy

import numpy as np
from sklearn.base import BaseEstimator

import core

ASSUMPTIONS = ('transformed matrices have at least one row',)


class Bases(BaseEstimator):
    """A factorization that answers with prepared bases."""

    def __init__(self, n_components=None, random_state=None, H=None):
        self.n_components, self.random_state = n_components, random_state
        self.H = H

    def fit(self, X, y=None):
        self.components_ = self.H[:self.n_components] * (1 + X.ravel()[0] * 0)
        return self

    def fit_transform(self, X, y=None):
        self.fit(X)
        return np.ones((len(X), self.n_components))


class Each(BaseEstimator):
    """A cluster of its own for each basis."""

    def fit(self, X, y=None):
        self.labels_ = np.arange(len(X))
        return self

    def fit_predict(self, X, y=None):
        return self.fit(X).labels_


def answer(A, b):
    return np.asarray(b, float).sum() + 1 + np.arange(A.shape[1]) + A.sum(0)


def make_bases(r, p):
    k = int(r.randint(1, 5))
    H = r.randint(0, 4, (k, p)).astype(float)
    H[H.sum(1) == 0, 0] = 1
    if k > 1 and r.randint(3) == 0:
        H[1] = 2 * H[0]                     # (not identifiable)
    return H


def data(r, p, n, kind, odd=True):
    if kind == 'int':
        d = [np.int64, np.uint8, np.int32, np.int8, np.uint16][r.randint(5)]
        return r.randint(0, 100, (n, p)).astype(d)
    X = r.rand(n, p) * 10. ** r.randint(-2, 4)
    X[r.rand(n, p) < .2] = 0
    if r.randint(3) == 0:
        X[r.randint(n)] = 0
    for i in range(n if odd else 0):
        t = r.randint(8)
        if t == 0:
            X[i] *= 1e-10
        elif t == 1 and i:                  # (like the row before, not it)
            X[i] = X[i - 1] * (1 + 10. ** -r.randint(2, 7) * r.rand(p))
        elif t == 2 and i:
            X[i] = X[i - 1]
    if kind == 'float32':
        return X.astype(np.float32)
    return np.asfortranarray(X) if r.randint(3) == 0 else X


def precision(X):
    """Small integers and single precision are answered in the latter."""
    single = np.result_type(X.dtype, np.float32) == np.float32
    return 3e-6 if single else 1e-8


def history(s, seed, label):
    from pyuoi.decomposition import UoI_NMF, UoI_NMF_Base
    from sklearn.linear_model import LinearRegression
    r = np.random.RandomState(seed)
    p = int(r.randint(1, 7))
    reg = ['nnls', 'nnls', 'positive', 'stub'][r.randint(4)]
    stubs = r.randint(3) > 0
    if reg == 'positive' and p == 1:
        reg = 'nnls'

    gen = np.random.RandomState(seed % 991)

    def make(H, state=None):
        rs = gen
        if state is not None:
            rs = np.random.RandomState()
            rs.set_state(state)
        kw = dict(n_boots=2, random_state=rs, cons_meth=None,
                  use_dissimilarity=False,
                  nnreg={'nnls': None, 'stub': answer,
                         'positive': LinearRegression(
                             positive=True, fit_intercept=False)}[reg])
        if stubs:
            kw.update(nmf=Bases(H=H), cluster=Each(), n_boots=1,
                      ranks=[len(H)])
        else:
            from sklearn.cluster import DBSCAN
            kw.update(ranks=[min(2, p)], cluster=DBSCAN(eps=.5,
                                                        min_samples=1))
        return [UoI_NMF_Base, UoI_NMF][seed % 2](**kw)
    H = make_bases(r, p)
    uoi = make(H)
    events = []

    def snapshot(e, exc):
        err = uoi.reconstruction_err_
        e.update(H=np.array(uoi.components_), exc=exc.split(':')[0],
                 err='None' if err is None else float(err))
        events.append(e)

    def train():
        X = data(r, p, int(r.randint(4, 9)), ['float', 'int'][r.randint(2)], stubs)
        X[0] += 1
        return X

    fitted = False
    for op in s['ops']:
        e = dict(op=op.split()[0], refused=False)
        if op in ('fit', 'refit', 'fit_transform'):
            X = train()
            twin = make(H, gen.get_state())
            if stubs and fitted:
                H = make_bases(r, p)
                k = len(uoi.nmf.H)
                H = np.resize(H, (k, p))
                H[H.sum(1) == 0, 0] = 1
                uoi.nmf.H = H
                twin = make(H, gen.get_state())
            if op != 'fit_transform':
                e['op'] = 'fit'
                _, exc = core.attempt(uoi.fit, X)
            else:
                # (its generator goes on: the twin starts from there)
                quiet = r.randint(4) == 0
                asked = {'reconstruction_err': False} if quiet else {}
                W, exc = core.attempt(uoi.fit_transform, X, **asked)
                if not exc:
                    twin.fit(X)
                    tW = twin.transform(X, **asked)
                    err = twin.reconstruction_err_
                    e.update(X=X.astype(float), W=W, quiet=quiet,
                             eps=precision(X),
                             twinH=twin.components_, twinW=tW,
                             twinerr='None' if err is None else float(err),
                             single=singles(uoi, X))
            fitted = True
        elif op in ('wide', 'narrow', 'negative fit', 'wrong weights'):
            e['refused'] = True
            if op == 'negative fit':
                X = train().astype(float)
                X[r.randint(len(X)), r.randint(p)] = -1e-9 - r.randint(2)
                _, exc = core.attempt(
                    uoi.fit if r.randint(2) else uoi.fit_transform, X)
            elif op == 'wrong weights':
                k = len(uoi.components_) + r.choice([-1, 1])
                _, exc = core.attempt(uoi.inverse_transform,
                                      np.ones((3, max(k, 0))))
            else:
                q = p + 1 if op == 'wide' or p == 1 else p - 1
                _, exc = core.attempt(uoi.transform, r.rand(3, q),
                                      reconstruction_err=bool(r.randint(2)))
        elif op == 'inverse':
            W = r.rand(int(r.randint(1, 5)), len(uoi.components_))
            out, exc = core.attempt(uoi.inverse_transform, W)
            e.update(W=W, out=out)
        else:
            kind = op.split()[-1]
            n = int(r.randint(1, 6))
            if kind == 'rows':
                n = 1
            elif r.randint(12) == 0:
                n = int(r.choice([65, 129, 200, 257, 301]))
            X = data(r, p, n, kind)
            e['op'] = 'transform'
            e['quiet'] = op == 'quiet'
            W, exc = core.attempt(uoi.transform, X, **(
                {'reconstruction_err': False} if op == 'quiet' else {}))
            if not exc:
                e.update(X=X.astype(float), W=W, single=singles(uoi, X),
                         eps=precision(X))
        snapshot(e, exc)
    return [dict(reg=reg, events=events, label=label)]


def singles(uoi, X):
    """The rows one by one, and last to first."""
    u = copy.deepcopy(uoi)
    W = [u.transform(X[i:i + 1])[0] for i in range(len(X))][::-1]
    return W[::-1]


def run(check):
    deep = check.thorough
    check.model('Reconstruct', 'Reconstruct4.cfg' if deep else None)
    scns = check.scenarios('Reconstruct', 'ReconstructScn.cfg')
    r = np.random.RandomState(check.seed % (1 << 31))
    tasks = []
    for rep in range(8 if not deep else 100):
        for s in scns:
            seed = int(r.randint(1 << 30))
            label = ', '.join(s['ops']) + ' seed=%d' % seed
            tasks.append((history, (s, seed, label), label))
    r.shuffle(tasks)
    check.validate('ReconstructTrace', core.record(tasks))
