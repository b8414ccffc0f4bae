"""C21: thresholds and refused settings."""
import numpy as np
from scipy.sparse import csr_matrix

import core
import fits
import relate

ASSUMPTIONS = (
    'proportions are floats nearest to p/q (or sums and products that round '
    'to them within 1e-9)',)
_counts = [0]


def count_fits():
    """Count what is fitted, by whichever solver."""
    if getattr(count_fits, 'done', False):
        return
    count_fits.done = True
    from sklearn.cluster import DBSCAN
    from sklearn.decomposition import NMF, TruncatedSVD
    from sklearn.linear_model import ElasticNet, LinearRegression
    from pyuoi.linear_model import logistic, poisson, lasso

    def wrap(cls, name):
        orig = cls.__dict__[name]

        def f(self, *a, **k):
            # (estimators of the library derive from their solvers)
            if not type(self).__name__.startswith('UoI'):
                _counts[0] += 1
            return orig(self, *a, **k)
        setattr(cls, name, f)
    for cls in (ElasticNet, LinearRegression, NMF, TruncatedSVD, DBSCAN,
                logistic.MaskedCoefLogisticRegression, poisson.Poisson,
                lasso.PycLasso):
        for name in ('fit', 'fit_transform'):
            if name in cls.__dict__:
                wrap(cls, name)


def table(n, qs, label):
    from pyuoi.linear_model.utils import \
        stability_selection_to_threshold as linear
    from pyuoi.decomposition.utils import \
        stability_selection_to_threshold as cur

    def ask(f, v):
        got, exc = core.attempt(f, v, n)
        if exc:
            return -1 if exc.startswith('ValueError') else -2
        got = np.asarray(got)
        if got.size != 1 or got.dtype.kind not in 'iu':
            return -3
        return int(got.ravel()[0])
    rows = []
    for q in qs:
        vals = [p / q for p in range(-1, q + 2)]
        lin = [ask(linear, v) for v in vals]
        good = [v for v, t in zip(vals, lin) if t > 0]
        row = dict(q=q, linear=lin, cur=[ask(cur, v) for v in vals])
        for k, a in (('array', np.array(good)), ('list', good)):
            got, exc = core.attempt(linear, a, n) if good else ([], '')
            row[k] = [-2] if exc else [int(t) for t in got]
        rows.append(row)
    counts = [dict(linear=ask(linear, t), cur=ask(cur, t))
              for t in range(-3, n + 4)]
    # proportions next to a whole number of bootstraps
    near = []
    for q in (997, 1000, 10**4, 10**6):
        for m in sorted({1, 2, n // 3, n // 2, n - 1, n} & set(range(1, n + 1))):
            for p in {m * q // n + d for d in (-1, 0, 1, 2)}:
                near.append(dict(p=p, q=q, linear=ask(linear, p / q),
                                 cur=ask(cur, p / q)))
    return [dict(what='table', n=n, rows=rows, counts=counts, near=near,
                 label=label)]


def given(s, r, seed, label):
    n = int(r.choice([2, 3, 7, 10, 24, 48, 100]))
    q = int(r.choice([n, 100, 10, 7, 3]))
    k = {'int': 1, 'float': 1, 'long list': 9}.get(s['why'],
                                                    int(r.randint(1, 5)))
    if 'float' in s['why'] or (s['why'] == 'long list' and r.randint(2)):
        # at least one bootstrap
        ps = [int(r.randint(-(-q // n), q + 1)) for _ in range(k)]
        entries = [dict(kind='float', p=p, q=q) for p in ps]
        v = [p / q for p in ps]
    else:
        ps = [int(r.randint(1, n + 1)) for _ in range(k)]
        entries = [dict(kind='int', p=p, q=1) for p in ps]
        v = list(ps)
    if s['why'] in ('int', 'float'):
        v = v[0]
    elif s['why'].startswith('array'):
        v = np.array(v)
        if s['why'][5:].strip() not in ('int', 'float'):
            v = v.astype(s['why'].split()[1])
    which, kw = relate.settings(s['entry'], seed, True, True)
    kw.update(n_boots_sel=n, n_boots_est=2, stability_selection=v)
    est, exc = core.attempt(lambda: fits.estimator(which)(**kw))
    got = [] if exc else [int(t) for t in est.selection_thresholds_]
    return dict(what='given', n=n, entries=entries, got=got, exc=exc,
                label=label)


NONSENSE = {
    'none': None, 'text': 'all', 'empty text': '', 'zero': 0,
    'list of text': ['1', '2'], 'mixed list': [1, .5], 'negative': -1,
    'list with none': [1, None], 'nan': float('nan'), 'inf': float('inf'),
    'negative float': -.5, 'small float': .24, 'dict': {1: 2},
    'too large float': 1.26, 'too many': 5,
    'array of text': np.array(['1', '2']), 'one bad in list': [1, 2, 5],
    'one bad in array': np.array([.5, .2, 1.]),
    'bool array': np.array([True, True])}


def linear(s, r, seed):
    which, kw = relate.settings(s['entry'], seed, bool(r.randint(2)), True)
    kw.update(n_boots_sel=4, n_boots_est=2, random_state=5,
              stability_selection=.5)
    for k in ('n_lambdas', 'n_C'):
        if k in kw:
            kw[k] = 3
    X, y, _ = relate.dyadic(fits.KIND[which], seed, n=36, p=3)
    w = s['why']
    if w in NONSENSE:
        kw['stability_selection'] = NONSENSE[w]
    elif w == 'columns':
        y = np.column_stack([y] * int(r.randint(2, 4)))
    elif w == 'cube':
        y = y[:, None, None]
    elif w == 'nan X':
        X[r.randint(36), r.randint(3)] = np.nan
    elif w == 'inf X':
        X[r.randint(36), r.randint(3)] = [np.inf, -np.inf][r.randint(2)]
    elif w == 'nan y':
        if fits.KIND[which] in ('logistic', 'multinomial'):
            return None                 # (a label like others)
        y = y.astype(float)
        y[r.randint(36)] = [np.inf, np.nan][r.randint(2)]
    elif w == 'short y':
        y = y[:-1]
    elif w == 'long y':
        y = np.append(y, y[:1])
    elif w == 'no samples':
        X, y = X[:0], y[:0]
    elif w == 'flat X':
        X = X[:, 0]
    elif w == 'sparse centered':
        kw['standardize'] = True
        X = csr_matrix(X)
    elif w == 'score foreign':
        kw['estimation_score'] = {
            'linear': ['acc', 'log'], 'logistic': ['r2'],
            'multinomial': ['r2'], 'poisson': ['r2', 'acc']}[
                fits.KIND[which]][r.randint(2) % (
                    2 if fits.KIND[which] in ('linear', 'poisson') else 1)]
    elif w.startswith('score'):
        kw['estimation_score'] = {'score foo': 'foo', 'score case': 'bic',
                                  'score none': None}[w]
    elif w.startswith('target'):
        kw['estimation_target'] = {'target foo': 'foo', 'target case': 'Test',
                                   'target index': 1}[w]
    return (lambda: fits.estimator(which)(**kw).fit(X, y)), w == 'valid'


def cur(s, r, seed):
    from pyuoi.decomposition import UoI_CUR
    X = r.randn(12, 6)
    w = s['why']
    kw = dict(n_boots=4, max_k=3, boots_frac=.75, stability_selection=.5,
              random_state=3)
    fk = {}
    if w in NONSENSE:
        kw['stability_selection'] = NONSENSE[w]
    table = {
        'ks too large': 4, 'ks zero': 0, 'ks negative': -1, 'ks float': 2.,
        'ks one bad': [1, 4], 'ks text': 'a', 'ks tuple': (1, 2),
        'ks none ok': None, 'ks int ok': 3,
        'cs zero': 0, 'cs negative': -1., 'cs one bad': [1, 2, 0],
        'cs short': [1., 2.], 'cs long': np.ones(4), 'cs text': 'a',
        'cs tuple': (1, 2, 3), 'cs none ok': None, 'cs float ok': 2.5,
        'cs list ok': [1, 2.5, 3]}
    if w in table:
        fk[w[:2]] = table[w]
    return (lambda: UoI_CUR(**kw).fit(X, **fk)), w == 'valid' or 'ok' in w


def nmf(s, r, seed):
    from sklearn.cluster import DBSCAN
    from sklearn.decomposition import NMF
    from pyuoi.decomposition import UoI_NMF, UoI_NMF_Base
    X = r.rand(10, 5)
    w = s['why']
    kw = dict(n_boots=3, ranks=[2, 3], random_state=3)
    cls = [UoI_NMF, UoI_NMF_Base][r.randint(2)]
    if w.startswith('one bootstrap'):
        kw.update(n_boots=1, use_dissimilarity='ok' not in w)
    elif w.startswith('ranks'):
        kw['ranks'] = {'text': 'ab', 'float': 3., 'set': {2}}[w.split()[1]]
    elif w == 'nmf class':
        kw['nmf'] = NMF
    elif w == 'cluster class':
        kw['cluster'] = DBSCAN
    elif w == 'nnreg':
        kw['nnreg'] = 'nnls'
    elif w == 'negative X':
        X[r.randint(10), r.randint(5)] = -1e-3
    return (lambda: cls(**kw).fit(X)), w == 'valid' or 'ok' in w


def solvers(s, r, seed):
    from pyuoi.linear_model.lasso import PycLasso
    from pyuoi.linear_model.logistic import MaskedCoefLogisticRegression as M
    from pyuoi.linear_model.poisson import Poisson
    X = r.randn(20, 3)
    y = np.arange(20) % 2
    w = s['why']
    kw, fk = {}, {}
    if w == 'pyc intercept':
        return (lambda: PycLasso(fit_intercept=False)), False
    if w == 'pyc intercept late':
        def late():
            m = PycLasso(alphas=np.array([1., .5, .2]))
            m.set_params(fit_intercept=False)
            m.fit(X, y * 1.)
        return late, None
    if w == 'pyc param':
        return (lambda: PycLasso().set_params(alpha=1.)), False
    if w == 'poisson solver':
        return (lambda: Poisson(solver='newton').fit(X, y)), None
    kw.update({'multi_class': dict(multi_class='ovr'),
               'C negative': dict(C=-1.), 'C text': dict(C='1'),
               'tol negative': dict(tol=-1.),
               'max_iter negative': dict(max_iter=-1)}.get(w, {}))
    if w == 'one class':
        y = y * 0
    elif w == 'float labels':
        y = y + .5
        return (lambda: M(**kw).fit(X, y)), True
    elif w == 'weights short':
        fk['sample_weight'] = np.ones(19)
    return (lambda: M(**kw).fit(X, y, **fk)), True if w == 'valid' else None


def one(s, seed, label):
    r = np.random.RandomState(seed)
    if s['what'] == 'given':
        return given(s, r, seed, label)
    count_fits()
    todo = {'uoicur': cur, 'nmf': nmf, 'solver': solvers}.get(
        s['entry'], linear)(s, r, seed)
    if todo is None:
        return None
    f, valid = todo
    _counts[0] = 0
    try:
        f()
        exc = ''
    except ValueError:
        exc = 'ValueError'
    except Exception as e:      # noqa
        exc = type(e).__name__
    # a solver that refuses is asked itself
    n = _counts[0] - (1 if valid is None and not exc == '' else 0)
    return dict(what='reject', valid=bool(valid), exc=exc, fits=max(n, 0),
                label=label)


def batch(part):
    return [c for c in (one(*t) for t in part) if c is not None]


def run(check):
    check.model('Thresholds')
    if check.thorough:
        check.model('Thresholds', 'Thresholds4.cfg', workers=4)
    scn = check.scenarios('Thresholds', 'ThresholdsScn.cfg')
    items = []
    for i, s in enumerate(scn):
        for v in range(8 if check.thorough else 2):
            seed = check.seed * 1000003 + 31 * i + v
            items.append((s, seed, '%(what)s entry=%(entry)s %(why)s' % s
                          + ' seed=%d' % seed))
    tasks = [(batch, (items[i:i + 24],), 'settings %d' % i)
             for i in range(0, len(items), 24)]
    top, qtop = (130, 101) if check.thorough else (64, 36)
    ns = list(range(1, top)) + [100, 200, 1000]
    for n in sorted(set(ns)):
        qs = sorted(set(list(range(1, qtop)) + [n, 100, 48]))
        tasks.append((table, (n, qs, 'table n=%d' % n), 'table n=%d' % n))
    cases = core.record(tasks, timeout=120)
    check.log(len(cases), 'cases')
    for c in cases:
        check.note(str(c.get('what')))
        if c.get('what') == 'table':
            check.note('proportions', sum(len(q['linear'])
                                          for q in c['rows']))
    check.validate('ThresholdTrace', cases, chunks=8)
