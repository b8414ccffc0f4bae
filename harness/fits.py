"""Recording fits of the UoI linear models as event traces (FitTrace.tla).

Nothing is decided here: rows are identified by their values, so that the
specification can talk about row numbers, and what the code returns is
written down."""
import contextlib
import itertools
import threading

import numpy as np
from scipy.sparse import issparse

import core

_tls = threading.local()
_patched = []


def _wrap(cls, name, kind):
    orig = cls.__dict__.get(name)
    inherited = orig is None
    if inherited:
        orig = getattr(cls, name, None)
        if orig is None:
            return

    def rec(self, *args, **kw):
        log = getattr(_tls, 'log', None)
        if log is None or _tls.depth or type(self) is not cls:
            return orig(self, *args, **kw)
        _tls.depth += 1
        try:
            out = orig(self, *args, **kw)
        finally:
            _tls.depth -= 1
        log.append((kind, self, args, kw, out,
                    snapshot(self) if kind == 'fit' else None))
        return out
    rec.__name__ = name
    setattr(cls, name, rec)
    _patched.append((cls, name, orig, inherited))


def _wrap_splits():
    """The splits that were drawn, where they are drawn by scikit-learn."""
    from pyuoi.linear_model import base
    orig = getattr(base, 'train_test_split', None)
    if orig is None:
        return

    def split(*arrays, **kw):
        out = orig(*arrays, **kw)
        if getattr(_tls, 'log', None) is not None and len(out) == 2 \
                and np.ndim(out[0]) == 1:
            _tls.log.append(('split', np.array(out[0])))
        return out
    base.train_test_split = split
    _patched.append((base, 'train_test_split', orig, False))


def snapshot(lm):
    return (np.array(getattr(lm, 'coef_', np.nan), dtype=float),
            np.array(getattr(lm, 'intercept_', 0.), dtype=float))


def install():
    if _patched:
        return
    from sklearn.linear_model import LinearRegression
    from pyuoi.linear_model import logistic, poisson
    _wrap_splits()
    for cls in (LinearRegression, logistic.MaskedCoefLogisticRegression,
                poisson.Poisson):
        _wrap(cls, 'fit', 'fit')
        for name in ('predict', 'predict_proba', 'predict_mean'):
            if hasattr(cls, name):
                _wrap(cls, name, 'predict')


@contextlib.contextmanager
def recording():
    install()
    _tls.log, _tls.depth = [], 0
    try:
        yield _tls.log
    finally:
        _tls.log = None


def dense(X):
    return X.toarray() if issparse(X) else np.asarray(X, dtype=float)


class Matcher:
    """Identifies rows and columns of a data matrix by their values.

    Rows which look alike (in the columns that were passed, and in their
    response) are told apart by row sets that are known already; `sure` says
    whether that or the values left no choice."""

    def __init__(self, X, std, icpt, y=None):
        X = dense(X)
        m = X.mean(axis=0) if icpt else 0.
        s = X.std(axis=0)
        s = np.where(s > 1e-12 * abs(X).max(axis=0), s, 1.)
        S = (X - m) / s
        self.y = None if y is None else np.asarray(y, float).ravel()
        self.cands = [S, X] if std else [X, S]

    def combinations(self, Z, A, tol):
        """Columns of Z which the columns of A may be parts of."""
        d = [[j for j in range(Z.shape[1])
              if np.all(np.min(abs(A[:, a][:, None] - Z[:, j][None]),
                               axis=1) <= tol)] for a in range(A.shape[1])]
        if np.prod([float(len(v)) for v in d]) > 200:
            return []
        return [list(c) for c in itertools.product(*d)
                if len(set(c)) == len(c)]

    def assign(self, D, known):
        """A row for each row, from those that look like it."""
        fit = [idx for idx in (self.distinct(D, k) for k in known
                               if len(k) == len(D)) if idx is not None]
        if fit:
            return fit[0], len(fit) == 1
        idx = self.distinct(D, range(D.shape[1]))
        return (D.argmax(axis=1) if idx is None else idx), False

    @staticmethod
    def distinct(D, among):
        left = np.zeros(D.shape[1], bool)
        left[list(among)] = True
        idx = []
        for row in D:
            at = np.flatnonzero(row & left)
            if not len(at):
                return None
            idx.append(at[0])
            left[at[0]] = False
        return np.array(idx)

    def match(self, A, cols=None, yy=None, known=()):
        """(rows (0 based), cols, sure) of the submatrix A, or Nones."""
        A = dense(A)
        no = None, None, False
        n, p = self.cands[0].shape
        if A.ndim != 2 or A.shape[0] > 4 * n or not A.size:
            return no
        P = None
        if yy is not None and np.size(yy) == len(A):
            P = np.isclose(np.asarray(yy, float).ravel()[:, None],
                           self.y[None], rtol=1e-7, atol=1e-9)
        for Z in self.cands:
            tol = 1e-7 * (1. + abs(Z).max())
            if A.shape[1] == p:
                combos = [list(range(p))]
            elif cols is not None and len(cols) == A.shape[1]:
                combos = [cols]
            else:
                combos = self.combinations(Z, A, tol)
            found = []
            for c in combos:
                D = np.ones((len(A), n), bool)
                for a, j in enumerate(c):
                    D &= abs(A[:, a][:, None] - Z[:, j][None]) <= tol
                if not D.any(axis=1).all():
                    continue
                paired = False
                if P is not None:
                    both = D & P
                    paired = bool(both.any(axis=1).all())
                    D = np.where(both.any(axis=1)[:, None], both, D)
                found.append((paired, c, D))
            if len(found) > 1:
                found = [f for f in found if f[0]]
            if len(found) == 1:
                _, c, D = found[0]
                if np.all(D.sum(axis=1) == 1):
                    return D.argmax(axis=1), c, True
                idx, sure = self.assign(D, known)
                return idx, c, sure
        return no

    def rows(self, A, cols=None):
        idx, cols, sure = self.match(A, cols)
        return (idx, cols) if sure else (None, None)


def icept_hint(model, X, Y, w):
    """The intercept that goes with coefficients w (a certificate which the
    specification checks)."""
    from scipy.optimize import brentq, minimize
    from scipy.special import expit, logsumexp
    if not np.all(np.isfinite(w)):
        return np.zeros(w.shape[0])
    eta = X @ w.T
    with np.errstate(all='ignore'):
        if model == 'linear':
            return np.atleast_1d((Y - eta).mean(axis=0))
        if model == 'poisson':
            return np.atleast_1d(np.log(Y.mean() / np.exp(eta).mean()))
        if model == 'logistic':
            e, t = eta[:, 0], Y.mean()
            if t <= 0 or t >= 1:
                return np.zeros(1)
            lo, hi = -abs(e).max() - 40, abs(e).max() + 40
            return np.atleast_1d(brentq(lambda b: expit(e + b).mean() - t,
                                        lo, hi, xtol=1e-13))
        b = np.log(np.maximum(Y.mean(axis=0), 1e-300))
        f = Y.mean(axis=0)
        for _ in range(100):
            z = eta + b
            p = np.exp(z - logsumexp(z, axis=1, keepdims=True))
            g = p.mean(axis=0) - f
            if abs(g).max() < 1e-13:
                break
            H = np.diag(p.mean(axis=0)) - p.T @ p / len(p)
            step = np.linalg.lstsq(H, g, rcond=1e-10)[0]
            b = b - step * min(1., 2. / (1e-300 + abs(step).max()))
        return b


def make_data(kind, n, p, seed, classes=3, scale=False, offset=0.):
    """Small random data with some signal."""
    r = np.random.RandomState(seed)
    X = r.randn(n, p)
    if scale:
        X = X * 2. ** r.randint(-2, 3, p) + offset * r.randn(p)
    k = max(1, p // 2)
    beta = np.zeros(p)
    beta[r.permutation(p)[:k]] = r.choice([-1, 1], k) * r.uniform(.5, 2, k)
    sd = X.std(axis=0)
    eta = (X - X.mean(axis=0)) / np.where(sd > 0, sd, 1.) @ beta
    eta = eta / max(1e-9, eta.std())
    if kind == 'linear':
        y = 3. * eta + r.randn(n) + (offset and 5.)
    elif kind == 'logistic':
        y = (eta + r.logistic(size=n) * .7 > 0).astype(int)
        if y.min() == y.max():
            y[:2] = [0, 1]
    elif kind == 'multinomial':
        B = r.randn(p, classes) * (r.rand(p, 1) < .6)
        y = np.argmax(X / np.where(sd > 0, sd, 1.) @ B * .8
                      + r.gumbel(size=(n, classes)), axis=1)
        y[:classes] = range(classes)
    else:
        y = r.poisson(np.exp(.5 + .7 * eta)).astype(float)
    return X, y


KIND = {'lasso': 'linear', 'enet': 'linear', 'logistic': 'logistic',
        'multinomial': 'multinomial', 'poisson': 'poisson'}


def estimator(which, base=None, **kw):
    """The estimator class (or a subclass that records sweeps)."""
    from pyuoi.linear_model import (UoI_Lasso, UoI_ElasticNet,
                                    UoI_L1Logistic, UoI_Poisson)
    cls = {'lasso': UoI_Lasso, 'enet': UoI_ElasticNet,
           'logistic': UoI_L1Logistic, 'multinomial': UoI_L1Logistic,
           'poisson': UoI_Poisson}[which]
    return cls


def recording_class(cls, sink):
    class Recorded(cls):
        def uoi_selection_sweep(self, X, y, reg_param_values):
            log = getattr(_tls, 'log', None)
            _tls.log = None
            try:
                out = super().uoi_selection_sweep(X, y, reg_param_values)
            finally:
                _tls.log = log
            sink.append(('sweep', dense(X).copy(), np.array(y).copy(),
                         [dict(d) for d in reg_param_values],
                         np.array(out, dtype=float)))
            if log is not None:
                log.append(sink[-1])
            return out
    Recorded.__name__ = cls.__name__
    return Recorded


def worked_y(kind, y, std, icpt):
    y = np.asarray(y)
    if kind == 'linear':
        y = y.ravel().astype(float)
        if std:
            s = y.std()
            y = (y - (y.mean() if icpt else 0)) / (s if s > 0 else 1.)
        return y
    if kind in ('logistic', 'multinomial'):
        return np.unique(y, return_inverse=True)[1].astype(float)
    return y.ravel().astype(float)


def quiet():
    import logging
    logger = logging.getLogger('uoi-check')
    logger.propagate = False
    if not logger.handlers:
        logger.addHandler(logging.NullHandler())
    return logger


def fit_case(which, X, y, kw, stratify=None, tols=None, path=True,
             label='', sweeps=True, kkt=True, verbose=False,
             before=None):
    """Fit and return the case (a dictionary with events)."""
    kind = KIND[which]
    n, p = X.shape
    std, icpt = kw.get('standardize', True), kw.get('fit_intercept', True)
    classes = np.unique(y)
    K = 1
    if kind in ('logistic', 'multinomial'):
        K = (len(classes) if len(classes) > 2
             or kw.get('multi_class') == 'multinomial' else 1)
        kind = 'multinomial' if K > 1 else 'logistic'
    cls = estimator(which)
    sink = []
    with recording() as log:
        def go():
            est = recording_class(cls, sink)(**kw)
            opt = {}
            if stratify is not None:
                opt['stratify'] = stratify
            if verbose:
                opt['verbose'] = True
            if before is not None:
                core.attempt(est.fit, *before)
                del log[:]
            est.fit(X, y, **opt)
            return est
        if verbose:
            kw = dict(kw, logger=quiet())
        est, exc = core.attempt(go)
        log = list(log)
    shared = kw.get('shared_support', True) or K == 1
    metric = kw.get('estimation_score',
                    {'linear': 'r2', 'poisson': 'log'}.get(kind, 'acc'))
    target = kw.get('estimation_target') or (
        'test' if metric in ('r2', 'log', 'acc') else 'train')
    Bs, Be = kw.get('n_boots_sel', 24), kw.get('n_boots_est', 24)
    frac = .8 if which == 'poisson' else .9
    solver = kw.get('solver', '')
    t = dict(rtol='1e-6', atol='1e-9', esttol='1e-7', caltol='1e-6',
             kkttol='1e-4')
    if kind in ('logistic', 'multinomial'):
        t.update(esttol='1e-3', caltol='1e-4', kkttol='2e-3')
    if kind == 'poisson':
        t.update(esttol='1e-4', kkttol='1e-3')
    if kind == 'linear' and issparse(X):
        # LSQR; nearly square systems end at its limit of iterations
        t.update(esttol='1e-4' if 2 * p < n else '1e-2')
    t.update(tols or {})
    wy = worked_y(kind, y, std, icpt)
    M = Matcher(X, std, icpt, wy)
    Yrows = (np.eye(K)[wy.astype(int)] if kind == 'multinomial'
             else wy[:, None])
    from thresholds import counts
    regs = [dict(d) for d in getattr(est, 'reg_params_', [])] if est else []
    begin = dict(
        ev='begin', model=kind, which=which, solver=solver, n=n, p=p, K=K,
        shared=bool(shared), icpt=bool(icpt), std=bool(std), metric=metric,
        target=target, Bs=Bs, Be=Be,
        selfrac=kw.get('selection_frac', frac),
        estfrac=kw.get('estimation_frac', frac),
        groups=[] if stratify is None else
        [int(g) for g in np.unique(stratify, return_inverse=True)[1]],
        thresholds=counts(kw.get('stability_selection', 1.), Bs),
        regs=regs, kkt=kkt, X=dense(X),
        y=[int(v) for v in wy] if kind in ('logistic', 'multinomial')
        else np.asarray(y, dtype=float).ravel(), **t)
    if path and est is not None and regs:
        vals = [d['alpha'] if 'alpha' in d else 1. / d['C'] for d in regs]
        ratios = (list(kw.get('alphas', [.5 if which == 'enet' else 1.]))
                  if which in ('enet', 'poisson') else [1.])
        begin['path'] = dict(
            ratios=ratios, values=vals,
            given=[d.get('l1_ratio', 1.) for d in regs],
            num=kw.get('n_C' if 'ogi' in which or 'mult' in which
                       else 'n_lambdas', 48),
            eps=kw.get('eps', 1e-5 if kind in ('logistic', 'multinomial')
                       else 1e-3))
    events = [begin]
    known = known_rows(log, M)
    drawn = [item[1] for item in log if item[0] == 'split'
             and item[1].dtype.kind in 'iu' and len(item[1])
             and item[1].min() >= 0 and item[1].max() < n]
    log = [item for item in log if item[0] != 'split']
    ests = {}      # id of the fitter -> (index of its est event, columns)
    n_est = 0
    for item in log:
        if item[0] == 'sweep':
            if not sweeps:
                continue
            _, A, yy, rr, out = item
            idx, _, sure = M.match(A, yy=yy)
            matched = idx is not None and len(yy) == len(idx)
            ev = dict(ev='sweep', sure=sure, rows=(idx + 1) if matched else [],
                      regs=rr, coefs=out, matched=matched, paired=bool(
                          matched and np.allclose(
                              np.asarray(yy, float).ravel(), wy[idx],
                              rtol=1e-7, atol=1e-9)))
            hints = []
            ev['guess'] = bool(not matched and out.ndim == 2
                               and out.shape[1] == K * p
                               and len(out) == len(rr) and drawn)
            if ev['guess']:
                idx = likely(drawn, kind, M.cands[0], Yrows, icpt, [
                    (w.reshape(K, p), penalty(reg), np.ones((K, p), bool))
                    for w, reg in zip(out, rr)], kind == 'poisson' and std)
                ev['rows'] = idx + 1
            if (matched or ev['guess']) and out.ndim == 2 \
                    and out.shape[1] == K * p:
                XX = M.cands[0][idx]
                for row in out:
                    hints.append(icept_hint(kind, XX, Yrows[idx],
                                            row.reshape(K, p))
                                 if icpt else np.zeros(K))
            ev['hints'] = hints
            events.append(ev)
            continue
        what, lm, args, kwargs, res, snap = item
        if what == 'fit':
            A = args[0] if args else kwargs.get('X')
            yy = args[1] if len(args) > 1 else kwargs.get('y')
            idx, cols, sure = M.match(A, yy=yy, known=known)
            matched = idx is not None
            W, b, mask = np.zeros((K, p)), np.zeros(K), np.zeros(K * p, bool)
            cm = kwargs.get('coef_mask', None)
            if matched:
                coef, ic = snap
                try:
                    W[:, cols] = coef.reshape(K, -1)
                    b[:] = ic.ravel()
                except ValueError:
                    matched = False
                if cm is not None:
                    mask[:] = np.asarray(cm).astype(bool).ravel()
                else:
                    mk = np.zeros((K, p), bool)
                    mk[:, cols] = True
                    mask = mk.ravel()
            n_est += 1
            ests[id(lm)] = (n_est, cols, idx)
            events.append(dict(
                ev='est', sure=sure, rows=(idx + 1) if matched else [], mask=mask, W=W,
                b=b, matched=bool(matched), paired=bool(
                    matched and len(idx) == np.size(yy) and np.allclose(
                        np.asarray(yy, float).ravel(), wy[idx], rtol=1e-7,
                        atol=1e-9))))
        elif what == 'predict':
            of, cols, train = ests.get(id(lm), (0, None, None))
            A = args[0] if args else kwargs.get('X')
            idx = None
            if of and train is not None:
                held = np.setdiff1d(np.arange(n), train)
                idx, _, sure = M.match(A, cols, known=[train, held,
                                                       np.arange(n)])
                idx = idx if sure else None
            events.append(dict(ev='score', of=of, matched=idx is not None,
                               rows=(idx + 1) if idx is not None else []))
    end = dict(ev='end', exc=exc, supports=[], scores=[], estimates=[],
               winners=[], W=[], b=[])
    if est is not None:
        end.update(fitted(est, K))
        end.update(direct(events, end, kind, K, p, icpt, M.cands[0], Yrows,
                          shared, drawn))
    events.append(end)
    return dict(events=events, label=label)


def known_rows(log, M):
    """The row sets which the values alone identify."""
    out = {}
    for item in log:
        if item[0] == 'fit':
            _, _, args, kw, _, _ = item
            A = args[0] if args else kw.get('X')
            yy = args[1] if len(args) > 1 else kw.get('y')
            idx, _, sure = M.match(A, yy=yy)
            if sure:
                out[tuple(sorted(idx))] = idx
    return list(out.values())


def penalty(reg):
    if 'C' in reg:
        return 1. / reg['C'], 0.
    ratio = reg.get('l1_ratio', 1.)
    return reg['alpha'] * ratio, reg['alpha'] * (1 - ratio)


def likely(drawn, kind, X, Y, icpt, fits, scaled=False):
    """The rows for which (coefficients, penalty, free) look like fits: a
    guess, which the specification checks."""
    from scipy.special import expit, softmax
    best = np.inf, drawn[0]
    for rows in drawn:
        A, B = X[rows], Y[rows]
        off = 0.
        for W, (l1, l2), free in fits:
            with np.errstate(all='ignore'):
                try:
                    b = icept_hint(kind, A, B, W) if icpt else 0.
                except ValueError:
                    b = 0.
                eta = A @ W.T + b
                mu = {'linear': lambda v: v, 'poisson': np.exp,
                      'logistic': expit, 'multinomial': lambda v: softmax(
                          v, axis=1)}[kind](eta)
                # (the Poisson sweep scales the features of every bootstrap)
                f = A.std(axis=0) if scaled else np.ones(A.shape[1])
                g = ((mu - B).T @ A) / len(rows) + l2 * W * f ** 2
                v = np.where(W == 0, np.maximum(abs(g) - l1 * f, 0),
                             abs(g + l1 * f * np.sign(W)))
            off = max(off, np.nan_to_num(v[free], nan=1e300).max(initial=0))
        if off < best[0]:
            best = off, rows
    return best[1]


def direct(events, end, kind, K, p, icpt, Xw, Yrows, shared, drawn):
    """Rows and intercepts to go with estimates whose fits were not
    recorded."""
    E = np.asarray(end['estimates'], float)
    ests = [v for v in events if v['ev'] == 'est' and v['matched']]
    none = dict(guess=[[] for _ in E], hints=[])
    if E.ndim != 3 or E.shape[2] != K * p or not np.all(np.isfinite(E)) \
            or len(end['supports']) != E.shape[1] \
            or len(ests) == E.shape[0] * sum(map(any, end['supports'])):
        return none
    hints = np.zeros(E.shape[:2] + (K,))
    guess = []
    for b in range(E.shape[0]):
        rows = {tuple(sorted(v['rows'])) for v in ests
                if np.any(v['W']) and any(
                    np.array_equal(np.ravel(v['W']), E[b, s])
                    for s in range(E.shape[1]))}
        if len(rows) == 1:
            idx = np.array(rows.pop()) - 1
        elif drawn:
            todo = []
            for s, m in enumerate(end['supports']):
                free = np.reshape(np.tile(m, K) if shared else m, (K, p))
                todo.append((E[b, s].reshape(K, p), (0., 0.), free))
            idx = likely(drawn, kind, Xw, Yrows, icpt, todo)
        else:
            guess.append([])
            continue
        guess.append(idx + 1)
        for s in range(E.shape[1] if icpt else 0):
            hints[b, s] = icept_hint(kind, Xw[idx], Yrows[idx],
                                     E[b, s].reshape(K, p))
    return dict(guess=guess, hints=hints)


def fitted(est, K):
    """The fitted attributes, as the specification wants them."""
    def get(name):
        return np.asarray(getattr(est, name, []))
    sup = get('supports_')
    coef = np.asarray(est.coef_, dtype=float)
    return dict(
        supports=[[bool(v) for v in row] for row in np.atleast_2d(sup)]
        if sup.size else [],
        scores=get('scores_').astype(float),
        estimates=get('estimates_').astype(float),
        winners=[int(v) + 1 for v in get('rp_max_idx_').ravel()],
        W=np.atleast_2d(coef), shape=list(coef.shape),
        b=np.asarray(est.intercept_, dtype=float).ravel())


# --------------------------------------------------------------------------
# the configurations Scenario.tla draws
# --------------------------------------------------------------------------
def thr_of(name, Bs):
    if Bs == 1 and name in ('half', 'list'):
        name = 'all'
    return {'one': 1, 'all': 1., 'half': .5, 'list': [.6, 1.],
            'ints': np.array([1, Bs]), 'spread': list(range(1, Bs + 1)),
            'floats': np.ceil([1000. / Bs, 1000. * ((Bs + 1) // 2) / Bs,
                               1000.]) / 1000.,
            'down': list(range(Bs, 0, -1))[:3],
            'third': max(.34, 1. / Bs)}[name]


def scenario(s, seed):
    """Data and keyword arguments of one configuration."""
    w = s['which']
    which = {'pyc': 'lasso', 'poissoncd': 'poisson'}.get(w, w)
    shape = s['shape']
    glm = which in ('logistic', 'multinomial')
    n, p = (60 if glm else 40), 5
    if which == 'multinomial':
        n, p = 72, 4
    if shape == 'single':
        p = 1
    elif shape == 'wide':
        n, p = 18, 22
    elif shape == 'tall':
        n, p = 170, 6
    elif shape == 'large':
        n, p = 300, 20
    kind = KIND[which]
    K = s['out']['K']
    if K > 4:
        n = max(n, 110)
    sd = seed
    while True:
        X, y = make_data(kind, n, p, sd, classes=K,
                         scale=shape == 'scaled', offset=1. * (
                             shape == 'scaled'))
        if not glm or np.bincount(y, minlength=K).min() >= 9:
            break
        sd += 1000
    r = np.random.RandomState(seed + 7)
    if shape == 'discrete':
        X[:, 0] = r.rand(n) < .5
        X[:, p - 1] = r.randint(0, 3, n)
    elif shape == 'correlated':
        X[:, 1] = X[:, 0] + .2 * r.randn(n)
        X[:, 3] = .2 * r.randn(n) - X[:, 2]
    elif shape == 'tiny' and s['preproc']['std']:
        X *= 10. ** r.randint(-7, 7, p)
        if kind == 'linear':
            y = y * 10. ** r.randint(-6, 6)
    if s['xrep'] in ('csr', 'csc') and p > 1:
        X[r.rand(n, p) < .3] = 0.
    Bs, Be = s['boots']
    kw = dict(n_boots_sel=Bs, n_boots_est=Be, random_state=seed % 1000,
              selection_frac=[.8, .75, .9, .5][seed % 4],
              estimation_frac=[.8, .7, .9][(seed + 1) % 3],
              stability_selection=thr_of(s['thr'], Bs),
              standardize=s['preproc']['std'],
              fit_intercept=s['preproc']['icpt'],
              estimation_score=s['metric'], warm_start=s['warm'])
    if s['target'] != 'default':
        kw['estimation_target'] = s['target']
    if glm:
        kw.update(n_C=s['regs'], tol=1e-6, eps=1e-3,
                  shared_support=s['out']['shared'],
                  multi_class=s['out']['multi'])
    elif which == 'poisson':
        kw.update(n_lambdas=s['regs'], tol=1e-8, max_iter=20000,
                  solver='cd' if w == 'poissoncd' else 'lbfgs', eps=1e-2)
        if seed % 2:
            kw['alphas'] = [1., .5]
    else:
        kw.update(n_lambdas=s['regs'], tol=1e-10, max_iter=100000, eps=1e-2)
        if w == 'pyc':
            kw['solver'] = 'pyc'
            del kw['warm_start']
        if w == 'enet':
            kw['alphas'] = [[.5], [.9, .3], [1., .5, .2]][seed % 3]
    strat = None
    if s['strat']:
        strat = y if glm else r.permutation(n) % (2 if n < 30 else 3) + 1
    return which, X, y, kw, strat


def represent(s, X, y):
    """The same numbers as other objects."""
    n, p = X.shape
    how = s['xrep']
    if how == 'F':
        X = np.asfortranarray(X)
    elif how == 'strided':
        big = np.full((2 * n, 3 * p), np.nan)
        big[::2, 1::3] = X
        X = big[::2, 1::3]
    elif how == 'readonly':
        X = X.copy()
        X.flags.writeable = False
    elif how in ('csr', 'csc'):
        from scipy import sparse
        X = sparse.csr_matrix(X) if how == 'csr' else sparse.csc_matrix(X)
    how = s['yrep']
    if how == 'readonly':
        y = y.copy()
        y.flags.writeable = False
    elif how == 'column':
        y = y[:, None]
    elif how == 'names':
        y = np.array(['ant', 'bee', 'cat', 'dog', 'eel'])[y]
    elif how == 'negative':
        y = np.array([-30, -2, 5, 40, 41])[y]
    elif how in ('float', 'int', 'int32'):
        y = y.astype(how)
    return X, y


def scenario_case(s, seed, label):
    which, X, y, kw, strat = scenario(s, seed)
    X, y = represent(s, X, y)
    how = s['call']
    if how['seed'] == 'state':
        kw['random_state'] = np.random.RandomState(kw['random_state'])
    elif how['seed'] == 'npint':
        kw['random_state'] = np.int64(kw['random_state'])
    before = None
    if how['twice']:
        # the object has been fitted to something else
        before = (X[::-1] if s['xrep'] not in ('csr', 'csc') else X,
                  np.roll(y, 3, axis=0))
    return [fit_case(which, X, y, kw, stratify=strat, label=label,
                     verbose=how['verbose'], before=before)]


def lattice(check, per, keep=None, offset=0, kkt=True):
    """Record `per` configurations of every model family."""
    scn = check.simulate('Scenario', max(200, 20 * per),
                         check.seed + 17 * offset)
    count, tasks = {}, []
    for i, s in enumerate(scn):
        if keep is not None and not keep(s):
            continue
        if count.get(s['which'], 0) >= per:
            continue
        count[s['which']] = count.get(s['which'], 0) + 1
        seed = 100003 * (check.seed % 1000) + 31 * offset + i
        label = ' '.join('%s=%s' % (k, v) for k, v in sorted(s.items()))
        tasks.append((scenario_case, (s, seed, label), label))
    install()
    return core.record(tasks)
