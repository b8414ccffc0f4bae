"""Histories of estimator objects (HistoryTrace.tla): what fits, queries and
data generators return, with the generator states around them.

Nothing is decided here; results are written down as named arrays."""
import contextlib
import copy
import hashlib
import warnings

import numpy as np

import core
import fits


def state(rng):
    """A name of the state of a generator."""
    s = rng.get_state()
    h = hashlib.sha1(repr((s[0], s[2:])).encode() + s[1].tobytes())
    return h.hexdigest()[:16]


def glob():
    return state(np.random.mtrand._rand)


def val(a):
    """An array as the specification wants it."""
    if a is None:
        return dict(shape=[-1], vals=[], text=True)
    a = np.asarray(a)
    if a.dtype == bool:
        a = a.astype(int)
    text = a.dtype.kind not in 'fiu'
    return dict(shape=list(a.shape), text=text, vals=[
        (str(v) if text else float(v)) for v in a.ravel()])


def pack(obj, names):
    return {n: val(getattr(obj, n)) for n in names if hasattr(obj, n)}


def digest(a):
    a = np.ascontiguousarray(a)
    return hashlib.sha1(repr(a.shape).encode() + a.tobytes()).hexdigest()[:12]


# --------------------------------------------------------------------------
# the linear models
# --------------------------------------------------------------------------
def linear_data(kind, d, seed):
    """Data set d (1..6) of a family; 3 has another shape, 4 another scale,
    5 is constant, 6 has other classes or another size."""
    s = 1000 * seed + d
    n, p = {3: (34, 6), 6: (46, 4)}.get(d, (40, 4))
    if kind == 'multinomial':
        n += 20
    classes = {6: 4}.get(d, 3)
    if kind == 'logistic' and d == 6:
        kind, classes = 'multinomial', 3
        n += 20
    while True:
        X, y = fits.make_data(kind, n, p, s, classes=classes)
        if kind not in ('logistic', 'multinomial') or \
                np.bincount(y).min() >= 7:
            break
        s += 100000
    if d == 4:
        X = X * 2. ** np.arange(p) + 3
        if kind == 'linear':
            y = 50 * y - 20
        elif kind == 'poisson':
            y = 3 * y
        else:
            y = np.array(['c', 'a', 'b', 'd'])[y]
    if d == 5:
        y = np.full(n, {'linear': 2.5, 'poisson': 3.}.get(kind, 1))
        if kind in ('logistic', 'multinomial'):
            y = y.astype(int)
    if d == 6 and kind == 'multinomial':
        y = y * 10 - 5
    if d == 2 and kind in ('logistic', 'multinomial'):
        y = 3 * y + 4                       # (as many classes, other labels)
    return X, y


class Linear:
    names = ('coef_', 'intercept_', 'supports_', 'scores_', 'estimates_',
             'rp_max_idx_', 'classes_')

    def __init__(self, which, **kw):
        self.which = which
        self.kind = fits.KIND[which]
        self.kw = dict(n_boots_sel=3, n_boots_est=3, selection_frac=.8,
                       estimation_frac=.8, stability_selection=[.67, 1.])
        if self.kind in ('logistic', 'multinomial'):
            self.kw.update(n_C=4, tol=1e-1, eps=1e-2)
        else:
            self.kw.update(n_lambdas=4, eps=1e-2)
        self.kw.update(kw)

    def make(self, seed, **kw):
        return fits.estimator(self.which)(random_state=seed, **dict(
            self.kw, **kw))

    def data(self, d, seed):
        return linear_data(self.kind, d, seed)

    def constant(self, data):
        return np.unique(data[1]).size == 1

    def run(self, obj, data):
        X, y = data
        self.sel, self.rows = [], []
        sweeps, pristine = [], []
        orig = type(obj).uoi_selection_sweep

        def sweep(X, y, regs):
            if not pristine and self.deep:
                pristine.append(copy.deepcopy(
                    {k: v for k, v in vars(obj).items()
                     if k not in ('_logger', 'uoi_selection_sweep')}))
            log = fits._tls.log
            fits._tls.log = None
            try:
                out = orig(obj, X, y, regs)
            finally:
                fits._tls.log = log
            sweeps.append((np.array(X), np.array(y), [dict(r) for r in regs],
                           np.array(out)))
            return out
        obj.uoi_selection_sweep = sweep
        try:
            with fits.recording() as log:
                obj.fit(X, y)
                log = list(log)
        finally:
            del obj.uoi_selection_sweep
        self.sel = [digest(A) for A, _, _, _ in sweeps]
        self.sweeps, self.pristine = sweeps, pristine
        self.fits = [it for it in log if it[0] == 'fit']
        M = fits.Matcher(X, obj.standardize, obj.fit_intercept)
        est = []
        for it in self.fits:
            A = it[2][0] if it[2] else it[3]['X']
            idx, _ = M.rows(A)
            if idx is None:
                est = []
                break
            k = digest(np.sort(idx))
            if not est or est[-1] != k:
                est.append(k)
        self.est = est
        self.nest = obj.n_boots_est
        return self.result(obj, data)

    deep = False

    def result(self, obj, data):
        names = self.names
        if self.constant(data):
            names = ('coef_', 'intercept_')
        res = pack(obj, names)
        if not self.constant(data):
            res['regs'] = val([v for d in obj.reg_params_
                               for _, v in sorted(d.items())])
        res['pred'] = self.ask(obj, data, 1)['pred']
        return res

    def ask(self, obj, data, d):
        X = np.random.RandomState(d).randn(5, np.shape(obj.coef_)[-1])
        res = {}
        if not hasattr(obj, 'classes_') and self.kind in ('logistic',
                                                          'multinomial'):
            return res
        res['pred'] = val(obj.predict(X))
        if hasattr(obj, 'predict_proba'):
            res['proba'] = val(obj.predict_proba(X))
        return res

    def again(self, obj):
        """Each sweep and each unpenalized fit of the last fit, done by an
        estimator that has done nothing else."""
        out = []
        for i, (A, y, regs, got) in enumerate(self.sweeps):
            new = copy.copy(obj)
            vars(new).update(copy.deepcopy(self.pristine[0]))
            cold, exc = core.attempt(new.uoi_selection_sweep, A, y, regs)
            out.append(dict(ev='same', clause='C07.sweep', a=val(got),
                            b=val(cold), rtol='1e-9', atol='1e-12'))
        for _, lm, args, kw, _, (coef, icpt) in self.fits[:12]:
            new = type(lm)(**lm.get_params())
            core.attempt(new.fit, *args, **kw)
            c, b = fits.snapshot(new)
            out.append(dict(ev='same', clause='C07.estimate', a=val(coef),
                            b=val(c), rtol='1e-7', atol='1e-9'))
            out.append(dict(ev='same', clause='C07.estimate', a=val(icpt),
                            b=val(b), rtol='1e-7', atol='1e-9'))
        return out


# --------------------------------------------------------------------------
# the decompositions
# --------------------------------------------------------------------------
def matrix(d, seed):
    r = np.random.RandomState(1000 * seed + d)
    n, p = {3: (14, 7), 6: (24, 6)}.get(d, (18, 6))
    X = r.gamma(2., size=(n, 3)) @ (r.gamma(1., size=(3, p))
                                    * (r.rand(3, p) < .6))
    X += .05 * r.rand(n, p) + .01
    if d == 4:
        X = X * 40.
    if d == 5:
        X = np.outer(X[:, 0], np.ones(p)) + 0 * X
    return (X,)


@contextlib.contextmanager
def tsvd_fits():
    """The matrices that are factorized."""
    from sklearn.decomposition import TruncatedSVD
    orig, seen = TruncatedSVD.fit, []

    def fit(self, X, *args, **kw):
        seen.append(digest(X))
        return orig(self, X, *args, **kw)
    TruncatedSVD.fit = fit
    try:
        yield seen
    finally:
        TruncatedSVD.fit = orig


class Decomposition:
    deep = False
    sel = est = ()
    nest = 0

    def __init__(self, which, **kw):
        self.which, self.kw = which, kw

    def make(self, seed, **kw):
        from pyuoi.decomposition import CUR, UoI_CUR, UoI_NMF, UoI_NMF_Base
        from sklearn.decomposition import NMF
        kws = dict(self.kw, **kw)
        if self.which == 'cur':
            return CUR(**dict(dict(max_k=3, random_state=seed), **kws))
        if self.which == 'uoicur':
            return UoI_CUR(**dict(dict(
                n_boots=4, max_k=3, boots_frac=.8, stability_selection=.5,
                random_state=seed), **kws))
        if self.which == 'nmfbase':
            return UoI_NMF_Base(**dict(dict(
                n_boots=4, ranks=[2, 3], random_state=seed, nmf=NMF(
                    init='random', max_iter=30, tol=1e-2)), **kws))
        return UoI_NMF(**dict(dict(
            n_boots=4, ranks=3, nmf_max_iter=30, nmf_tol=1e-2,
            random_state=seed), **kws))

    def data(self, d, seed):
        return matrix(d, seed)

    def constant(self, data):
        return False

    def run(self, obj, data):
        X, = data
        if self.which == 'cur':
            obj.fit(X, c=3)
        elif self.which == 'uoicur':
            with tsvd_fits() as seen:
                obj.fit(X, cs=4.)
            if obj.boots_frac < 1:
                self.sel = seen
        else:
            obj.fit(X)
            self.sel = [digest(b) for b in obj.bootstraps_]
        return self.result(obj, data)

    def result(self, obj, data):
        if 'cur' in self.which:
            return pack(obj, ('column_indices_', 'components_'))
        res = pack(obj, ('components_', 'dissimilarity_', 'bootstraps_',
                         'bases_samples_', 'bases_samples_labels_'))
        res.update(self.ask(obj, data, 1))
        return res

    def ask(self, obj, data, d):
        X = np.random.RandomState(d).rand(5, data[0].shape[1])
        if 'cur' in self.which:
            return dict(got=val(obj.transform(X)))
        W = obj.transform(X)
        return dict(W=val(W), err=val(obj.reconstruction_err_),
                    back=val(obj.inverse_transform(W)))

    def again(self, obj):
        return []


# --------------------------------------------------------------------------
# the data generators
# --------------------------------------------------------------------------
class Generator:
    deep = False
    sel = est = ()
    nest = 0

    def __init__(self, which, **kw):
        self.which, self.kw = which, kw

    def make(self, seed):
        return dict(seed=seed)

    def data(self, d, seed):
        return (dict([{}, {'n_samples': 20}, {'n_features': 8},
                      {'include_intercept': True}, {'n_informative': 1},
                      {'n_samples': 31}][d - 1], **self.kw),)

    def constant(self, data):
        return False

    def run(self, obj, data):
        from pyuoi import datasets
        f = getattr(datasets, 'make_' + self.which)
        out = f(random_state=obj['seed'], **data[0])
        self.out = {'%d' % i: val(a) for i, a in enumerate(out)}
        self.sel = [digest(out[0])]
        return self.out

    def ask(self, obj, data, d):
        return {}

    def again(self, obj):
        return []


SUBJECTS = {
    'lasso': lambda: Linear('lasso', tol=1e-2),
    'lasso cold': lambda: Linear('lasso', tol=1e-2, warm_start=False),
    'lasso plain': lambda: Linear('lasso', tol=1e-2, standardize=False,
                                  fit_intercept=False),
    'lasso pyc': lambda: Linear('lasso', solver='pyc'),
    'lasso bic': lambda: Linear('lasso', tol=1e-2, estimation_score='BIC'),
    'enet': lambda: Linear('enet', tol=1e-2, alphas=[.9, .3]),
    'logistic': lambda: Linear('logistic', warm_start=True),
    'logistic cold': lambda: Linear('logistic', standardize=False),
    'multinomial': lambda: Linear('multinomial', warm_start=True),
    'multinomial free': lambda: Linear('multinomial', warm_start=True,
                                       shared_support=False),
    'poisson': lambda: Linear('poisson', tol=1e-1),
    'poisson cd': lambda: Linear('poisson', tol=1e-1, solver='cd',
                                 max_iter=20),
    'poisson plain': lambda: Linear('poisson', tol=1e-1, standardize=False,
                                    fit_intercept=False, alphas=[.5]),
    'cur': lambda: Decomposition('cur'),
    'cur arpack': lambda: Decomposition('cur', algorithm='arpack'),
    'uoicur': lambda: Decomposition('uoicur'),
    'uoicur arpack': lambda: Decomposition('uoicur', algorithm='arpack',
                                           boots_frac=1),
    'nmf': lambda: Decomposition('nmf'),
    'nmf all': lambda: Decomposition('nmf', use_dissimilarity=False),
    'nmf cd': lambda: Decomposition('nmf', nmf_solver='cd',
                                    nmf_beta_loss='frobenius'),
    'nmfbase': lambda: Decomposition('nmfbase'),
    'linear_regression': lambda: Generator('linear_regression'),
    'classification': lambda: Generator('classification'),
    'classification3': lambda: Generator('classification', n_classes=3),
    'classification3s': lambda: Generator('classification', n_classes=3,
                                          shared_support=True),
    'poisson_regression': lambda: Generator('poisson_regression'),
}
MODELS = [k for k, f in SUBJECTS.items() if not isinstance(f(), Generator)]
GENERATORS = [k for k in SUBJECTS if k not in MODELS]


def held(obj):
    """The generators an object keeps (by name), if any."""
    found = {}
    if isinstance(obj, dict):
        vs = obj
    else:
        vs = vars(obj)
    for k, v in vs.items():
        if isinstance(v, np.random.RandomState):
            found[id(v)] = v
    return list(found.values())


def gen_key(obj, seed):
    h = held(obj)
    if h:
        return 'gen:' + '+'.join(state(g) for g in h)
    return 'int:%d' % int(seed)


def gen_id(obj, seed):
    h = held(obj)
    return '+'.join(state(g) for g in h) if h else \
        state(np.random.RandomState(int(seed)))


def clone_rng(rng):
    new = np.random.RandomState(0)
    new.set_state(rng.get_state())
    return new


def touch(r):
    np.random.seed(int(r.randint(1 << 30)))
    np.random.rand(int(r.randint(1, 9)))


class History:
    """One history of objects of a subject."""

    def __init__(self, name, seed, data_seed=None):
        self.name, self.sub = name, SUBJECTS[name]()
        self.r = np.random.RandomState(seed)
        self.dseed = int(self.r.randint(1000)) if data_seed is None \
            else data_seed
        self.events, self.objs, self.last = [], {}, {}

    def new(self, o, seed):
        self.objs[o] = [self.sub.make(seed), seed, 0]

    def fit(self, o, d, deep=False):
        obj, seed, used = self.objs[o]
        data = self.sub.data(d, self.dseed)
        key = gen_key(obj, seed)
        gid = gen_id(obj, seed)
        g0 = glob()
        self.sub.deep = deep
        self.sub.sel, self.sub.est, self.sub.nest = (), (), 0
        res, exc = core.attempt(self.sub.run, obj, data)
        ev = dict(ev='fit', o=o, d=d, gid=gid, key='%s|%d' % (key, d),
                  fresh=used == 0, globpre=g0, globpost=glob(),
                  gpost=gen_key(obj, seed), exc=exc, res=res or {},
                  sel=list(self.sub.sel) if not exc else [],
                  est=list(self.sub.est) if not exc else [],
                  nest=self.sub.nest, fixed=self.sub.constant(data)
                  or 'arpack' in self.name)
        self.events.append(ev)
        self.objs[o][2] += 1
        self.last[o] = data
        if deep and not exc:
            self.events += self.sub.again(obj)
        return ev

    def query(self, o, d):
        obj = self.objs[o][0]
        g0 = glob()
        res, exc = core.attempt(self.sub.ask, obj, self.last[o], d)
        self.events.append(dict(ev='query', o=o, d=d, exc=exc, res=res or {},
                                globpre=g0, globpost=glob()))

    def touch(self):
        touch(self.r)
        self.events.append(dict(ev='touch'))

    def fresh_like(self, o, pre, d, name):
        """A new object with the generator state o had before its fit."""
        self.objs[name] = [self.sub.make(pre), pre, 0]
        self.fit(name, d)

    def case(self, label):
        return dict(events=self.events, label='%s %s' % (self.name, label))


def before(obj, seed):
    """What to seed a new object with, so that it is where obj is."""
    h = held(obj)
    return clone_rng(h[0]) if h else seed
