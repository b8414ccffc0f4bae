"""C23: the representation of the data does not matter."""
import numpy as np
from scipy import sparse

import core
import fits
import relate

ASSUMPTIONS = ('pairs of fits whose zero patterns differ by rounding, or '
               'whose best scores are a draw, are compared by their sweeps '
               'only',)


def dense(how, X):
    """The same matrix in another representation."""
    n, p = X.shape
    if how == 'fortran':
        return np.asfortranarray(X)
    if how == 'strided':
        big = np.full((2 * n, 3 * p), np.nan)
        big[::2, 1::3] = X
        return big[::2, 1::3]
    if how == 'reversed':
        return np.ascontiguousarray(X[::-1, ::-1])[::-1, ::-1]
    if how == 'transposed':
        return np.ascontiguousarray(X.T).T
    if how == 'readonly':
        X = X.copy()
        X.setflags(write=False)
        return X
    if how in ('int64', 'int32', 'int16', 'int8', 'uint8', 'uint16', 'bool'):
        return X.astype(how)
    if how == 'offset':
        return X.astype(np.int64)
    if how == 'intF':
        return np.asfortranarray(X.astype(np.int64))
    if how == 'csr':
        return sparse.csr_matrix(X)
    if how == 'csc':
        return sparse.csc_matrix(X)
    if how == 'coo':
        r = np.random.RandomState(0)
        A = sparse.coo_matrix(X)
        o = r.permutation(A.nnz)
        return sparse.coo_matrix((A.data[o], (A.row[o], A.col[o])), A.shape)
    if how == 'unsorted':
        A = sparse.csr_matrix(X)
        for i in range(A.shape[0]):
            s = slice(A.indptr[i], A.indptr[i + 1])
            A.indices[s] = A.indices[s][::-1].copy()
            A.data[s] = A.data[s][::-1].copy()
        A.has_sorted_indices = False
        return A
    return X


def response(how, y, linear):
    if how == 'same':
        return y
    if how == 'column':
        return y[:, None]
    if how == 'strided':
        big = np.zeros(3 * len(y), y.dtype)
        big[::3] = y
        return big[::3]
    if how == 'negstride':
        return y[::-1].copy()[::-1]
    if how == 'readonly':
        y = y.copy()
        y.setflags(write=False)
        return y
    if how == 'int':
        return y.astype(np.int64)
    if how == 'int8':
        return y.astype(np.int8)
    if how == 'float':
        return y.astype(float)
    if how == 'column F':
        return np.asfortranarray(y[:, None])
    raise ValueError(how)


DENSE = ['fortran', 'strided', 'reversed', 'transposed', 'readonly', 'int64',
         'int32', 'int16', 'intF', 'same', 'int8', 'uint8', 'uint16', 'bool',
         'offset']
SPARSE = ['csr', 'csc', 'coo', 'unsorted']


def record(fam, how, yhow, seed, std, icpt, more, label):
    r = np.random.RandomState(seed)
    which, kw = relate.settings(fam, seed, std, icpt, **more)
    p = 4 if which == 'multinomial' else 5
    X, y, Z = relate.dyadic(fits.KIND[which], seed, p=p, n=72)
    if how == 'int8':
        f = 30 if which in ('lasso', 'enet') else 8
        X, Z = [np.clip(np.round(A * f), -127, 127) for A in (X, Z)]
    elif how in ('uint8', 'uint16'):
        f = 30 if which in ('lasso', 'enet') else 8
        f = 4000 if how == 'uint16' and std else f
        X, Z = [np.clip(np.round(A * f) + 2 * f, 0, 8.5 * f // 1)
                for A in (X, Z)]
    elif how == 'bool':
        X, Z = (X > 0) * 1., (Z > 0) * 1.
    elif how == 'offset':
        # (needs more digits than single precision has)
        X, Z = [np.round(A * 64) + 2. ** 26 for A in (X, Z)]
    elif how.startswith('int'):
        X, Z = np.round(X * 4), np.round(Z * 4)
        if which == 'poisson':
            X = np.clip(X, -6, 6)
    if yhow in ('int', 'int8') and which in ('lasso', 'enet'):
        y = np.clip(np.round(y * (4 if yhow == 'int' else 20)), -128, 127)
    if how in SPARSE:
        X = X * (r.rand(*X.shape) < .6)
    labels = np.unique(y).tolist() if 'n_C' in kw else None
    first = relate.observe(which, kw, X, y, Z, labels)
    y2 = response(yhow, y, which in ('lasso', 'enet'))
    second = relate.observe(which, kw, dense(how, X), y2,
                            Z if how in SPARSE else dense(how, Z), labels)
    K = 1
    if labels and (len(labels) > 2 or kw.get('multi_class')):
        K = len(labels)
    exact = how in ('readonly', 'same') and yhow in ('same', 'readonly',
                                                     'float', 'int')
    return [relate.pair('C23', fam, which, first, second, p, K,
                        relate.none(p), exact, label,
                        labels=len(labels or []))]


def run(check):
    deep = check.thorough
    r = np.random.RandomState(check.seed % (1 << 31))
    check.model('Relate', workers=2)
    metrics = {'real': ['r2', 'BIC'], 'label': ['log', 'BIC', 'acc'],
               'count': ['log', 'BIC']}
    tasks = []
    for fam in relate.FAMILIES:
        yt = relate.YTYPE[relate.FAMILIES[fam][0]]
        hows = DENSE + ([] if fam in ('pyc', 'poisson', 'poissoncd')
                        else SPARSE)
        for i, how in enumerate(hows * (2 if not deep else 24)):
            yhow = ['same', 'strided', 'negstride', 'readonly'] + {
                'real': ['column', 'column F', 'int', 'column', 'int8'],
                'count': ['int', 'float', 'int8'],
                'label': ['float', 'int', 'int8']}[yt]
            yhow = yhow[r.randint(len(yhow))]
            if how == 'same' and yhow == 'same':
                yhow = {'real': 'column'}.get(yt, 'int')
            std, icpt = bool(r.randint(2)), bool(r.randint(2))
            if how in SPARSE:
                icpt = False
            if how == 'offset':
                if fam not in ('lasso', 'enet', 'pyc'):
                    continue
                icpt = True
            if fam == 'pyc':
                icpt = True
            metric = metrics[yt][r.randint(len(metrics[yt]))]
            seed = int(r.randint(1 << 30))
            label = '%s X=%s y=%s std=%s icpt=%s %s seed=%d' % (
                fam, how, yhow, std, icpt, metric, seed)
            tasks.append((record, (fam, how, yhow, seed, std, icpt,
                                   dict(estimation_score=metric), label),
                          label))
    fits.install()
    cases = core.record(tasks, timeout=90)
    check.validate('RelateTrace', cases, only='C23')
