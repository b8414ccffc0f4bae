"""C17: column subset selection."""
import contextlib

import numpy as np

import core

ASSUMPTIONS = (
    'selection probabilities strictly between 0 and 1 are judged by '
    'frequencies, with six standard deviations of tolerance',
    'integer matrices are factorized by the randomized solver only: '
    "scikit-learn's arpack wrapper refuses them",
    'leverage scores count as known where the singular values on both sides '
    'of the rank differ by more than 0.1%')


@contextlib.contextmanager
def factorized():
    """The matrices that are factorized, and how."""
    from sklearn.decomposition import TruncatedSVD
    orig, seen = TruncatedSVD.fit_transform, []

    def fit_transform(self, X, *args, **kw):
        seen.append((dense(X).copy(), dict(
            algorithm=str(self.algorithm), n_iter=int(self.n_iter),
            tol=float(self.tol))))
        return orig(self, X, *args, **kw)
    TruncatedSVD.fit_transform = fit_transform
    try:
        yield seen
    finally:
        TruncatedSVD.fit_transform = orig


def dense(X):
    return X.toarray() if hasattr(X, 'toarray') else np.asarray(X)


def unit(r, n, p):
    """Every row has one entry, and no two are alike."""
    w = r.permutation(70)[:n] + 1
    col = r.randint(0, p, n)
    X = np.zeros((n, p))
    X[np.arange(n), col] = w * r.choice([-1, 1], n)
    return X, col, w


def shaped(X, s):
    from scipy import sparse
    form = s['form']
    if form == 'int' and s['algorithm'] == 'arpack':    # (arpack refuses)
        form = 'dense'
    return {'dense': X, 'fortran': np.asfortranarray(X),
            'sparse': sparse.csr_matrix(X), 'int': X.astype(int)}[form]


def leverage(A, k):
    """Leverage scores of the columns, and whether they are well defined."""
    _, s, Vt = np.linalg.svd(A, full_matrices=False)
    if k > len(s) or s[k - 1] < 1e-8 * s[0]:
        return np.zeros(A.shape[1]), False
    gap = s[k - 1] - (s[k] if k < len(s) else 0)
    return (Vt[:k] ** 2).sum(0), bool(gap > 1e-3 * s[0])


def outcome(obj, X, Z, out, refit):
    idx = obj.column_indices_
    comp = dense(obj.components_)
    out.update(result=[int(j) + 1 for j in idx],
               components=comp if comp.size else [],
               transformed=obj.transform(Z) if len(idx) else [])
    if refit is not None:
        o2, got = refit
        out['fittransformed'] = bool(np.array_equal(
            got, dense(X)[:, o2.column_indices_]) and got.shape[0] == len(
                dense(X)))


def common(s, seed, label):
    r = np.random.RandomState(seed)
    if s['kind'] == 'unit':
        n, p = int(r.randint(6, 17)), int(r.randint(3, 8))
        if s.get('frac') == 'nearly':
            n = int(r.randint(45, 70))
        X, col, w = unit(r, n, p)
    else:
        n, p = int(r.randint(16, 30)), int(r.randint(4, 9))
        if r.randint(15) == 0:
            n, p = 60, int(r.randint(20, 45))
        if s.get('frac') == 'nearly':
            n = int(r.randint(45, 70))
        X = r.randint(-9, 10, size=(n, p)).astype(float)
        X *= r.choice([1, 1, 3, 8], p)
        if r.randint(3) == 0:
            X[:, r.randint(p)] = 0
        col, w = [], []
    Z = r.randint(-9, 10, size=(4, p))
    out = dict(case=s['case'], unit=s['kind'] == 'unit', n=n, p=p, X=X, Z=Z,
               col=[int(j) + 1 for j in col], w=w, exc='', strata=[],
               components=[], transformed=[], fittransformed=True, result=[],
               sharp=[], lev=[], used=[], asked={}, label=label)
    return r, X, Z, out


def asked(out, kw, r):
    """Settings of the factorizations."""
    out['asked'] = dict(algorithm=kw['algorithm'], n_iter=5, tol=0.)
    for key, value in (('n_iter', int(r.randint(6, 9))), ('tol', 1e-10)):
        if r.randint(4) == 0:
            out['asked'][key] = kw[key] = value


def uoi(s, seed, label):
    from pyuoi.decomposition import UoI_CUR
    r, X, Z, out = common(s, seed, label)
    n, p = X.shape
    frac = {'one': 1, 'most': float(r.choice([.9, .8])),
            'nearly': float(r.choice([.94, .95, .955])),
            'half': float(r.choice([.5, .6]))}[s['frac']]
    max_k = int(r.randint(1, min(p, int(n * frac) - 1)))
    ks = {'all': None, 'one': int(r.randint(1, max_k + 1)),
          'list': sorted(r.permutation(max_k)[:3] + 1),
          'reversed': sorted(r.permutation(max_k)[:3] + 1)[::-1]}[s['ranks']]
    if isinstance(ks, list):
        ks = [int(k) for k in ks]
        if r.randint(2):
            ks = np.array(ks)
    kk = list(range(1, max_k + 1)) if ks is None else \
        [ks] if isinstance(ks, int) else [int(k) for k in ks]
    level = [int(r.choice([0, 1, 1, 1, 2])) for _ in kk]
    how = r.randint(4)
    if how == 0:
        level = [1] * len(kk)
        cs, cc = None, [k + 20 for k in kk]
    elif how == 1:
        level = [1] * len(kk)
        cs = max(kk) + .5
        if r.randint(2):
            cs = max(kk) + 1
        cc = [cs] * len(kk)
    else:
        cs = [[1e-13, k + .5, k / 2.][v] for k, v in zip(kk, level)]
        if not out['unit']:
            cs = [[1e-13, k + 20., k * 1.5][v] for k, v in zip(kk, level)]
        cc = list(cs)
        if how == 3:
            cs = np.array(cs)
    B = int(r.randint(1, 6) if r.randint(12) else r.randint(10, 30))
    thr = {'one': 1, 'some': (B + 1) // 2, 'every': B}[s['thr']]
    stab = thr if r.randint(2) else (thr + .25) / B if thr < B else 1.
    strata = None
    if r.randint(3) == 0 and (1 - frac) * n > 2:
        strata = r.permutation(np.arange(n) % 2) + 1
    kw = dict(n_boots=B, max_k=max_k, boots_frac=frac, algorithm=s['algorithm'],
              stability_selection=stab,
              random_state=[seed % 997, None, np.random.RandomState(
                  seed % 997)][r.randint(3)])
    asked(out, kw, r)
    Xin = shaped(X, s)
    out.update(B=B, thr=thr, frac=frac, ks=kk, cs=cc, level=level,
               strata=[] if strata is None else strata, boots=[])

    def go():
        obj = UoI_CUR(**kw)
        with factorized() as seen:
            obj.fit(Xin, ks=ks, cs=cs, stratify=strata)
        refit = None
        if s['form'] != 'sparse':
            o2 = UoI_CUR(**kw)
            refit = o2, o2.fit_transform(Xin, ks=ks, cs=cs)
        outcome(obj, X, Z, out, refit)
        return seen
    seen, exc = core.attempt(go)
    out['exc'] = exc
    if exc:
        return [out]
    if not seen:                         # (factorized in another way)
        return []
    out['used'] = [x[1] for x in seen]
    seen = [x[0] for x in seen]
    if frac == 1:
        boots = [list(range(n))] * B
    else:
        rows = {}
        for i, row in enumerate(X):
            rows.setdefault(row.tobytes(), []).append(i)
        boots = []
        for A in seen:
            left = {k: list(v) for k, v in rows.items()}
            idx = []
            for row in A.astype(float):
                at = left.get((row + 0.).tobytes(), [])
                idx.append(at.pop() if at else -1)
            boots.append(idx)
    out['boots'] = [[i + 1 for i in idx] for idx in boots]
    if not out['unit']:
        both = [[leverage(X[idx], k) for k in kk] for idx in boots]
        out['lev'] = [[x[0] for x in y] for y in both]
        out['sharp'] = [[x[1] for x in y] for y in both]
    return [out]


def cur(s, seed, label):
    from pyuoi.decomposition import CUR
    r, X, Z, out = common(s, seed, label)
    n, p = X.shape
    k = int(r.randint(1, min(p, n)))
    c = [None, k + .5, k + 20, 1e-13, k / 2., float(p)][r.randint(6)]
    kw = dict(max_k=k, algorithm=s['algorithm'], random_state=[
        seed % 997, None, np.random.RandomState(seed % 997)][r.randint(3)])
    asked(out, kw, r)
    Xin = shaped(X, s)
    cc = k + 20 if c is None else c
    out.update(ks=[k], cs=[cc], boots=[list(range(1, n + 1))],
               level=[0 if cc < 1e-9 else 1 if cc > k else 2])

    def go():
        obj = CUR(**kw)
        with factorized() as seen:
            obj.fit(Xin, c=c)
        out['used'] = [x[1] for x in seen]
        refit = None
        if s['form'] != 'sparse':
            o2 = CUR(**kw)
            refit = o2, o2.fit_transform(Xin, c=c)
        outcome(obj, X, Z, out, refit)
    out['exc'] = core.attempt(go)[1]
    if not out['unit']:
        lev, sharp = leverage(X, k)
        out['lev'], out['sharp'] = [[lev]], [[sharp]]
    return [out]


def frequency(s, seed, label):
    from pyuoi.decomposition import CUR, UoI_CUR
    from pyuoi.decomposition.utils import column_select
    r = np.random.RandomState(seed)
    G = int(r.randint(1, 4))
    size = 50000 if s['kind'] == 'function' else 400
    sizes = [int(x) for x in r.randint(size, 1.75 * size, G)]
    ks = [int(r.randint(1, G + 1))]
    if s['ranks'] == 'list':
        ks = [int(k) for k in r.permutation(G)[:2] + 1]
    cs = [float(k * m * r.uniform(.2, .9)) for k, m in
          zip(ks, r.choice(sizes, len(ks)))]
    B = 1 if s['kind'] != 'uoi' else int(r.randint(2, 6))
    thr = {'one': 1, 'some': (B + 1) // 2, 'every': B}[s['thr']]
    out = dict(case='frequency', sizes=sizes, ks=ks, cs=cs, B=B, thr=thr,
               counts=[], exc='', label=label)
    p, m = sum(sizes), 12
    start = np.cumsum([0] + sizes)
    order = r.permutation(p)             # where the columns are
    rs = [seed % 9973, np.random.RandomState(seed % 9973)][r.randint(2)]

    def go():
        if s['kind'] == 'function':
            V = np.zeros((p, ks[0]))
            for g in range(ks[0]):
                V[start[g]:start[g + 1], g] = r.choice(
                    [-1, 1], sizes[g]) / np.sqrt(sizes[g])
            return column_select(V[np.argsort(order)], cs[0],
                                 random_state=rs)
        X = np.zeros((m * G, p))
        for g in range(G):
            X[m * g:m * g + m, start[g]:start[g + 1]] = r.choice(
                [-1, 1], sizes[g]) * 4. ** -g
        X = X[r.permutation(m * G)][:, np.argsort(order)]
        if s['kind'] == 'cur':
            obj = CUR(max_k=ks[0], random_state=rs)
            obj.fit(X, c=cs[0])
        else:
            obj = UoI_CUR(n_boots=B, max_k=G, boots_frac=float(
                r.choice([1., .75])), stability_selection=thr,
                random_state=rs)
            obj.fit(X, ks=ks, cs=cs)
        return obj.column_indices_
    idx, out['exc'] = core.attempt(go)
    if not out['exc']:
        block = np.repeat(np.arange(G), sizes)[np.argsort(order)]
        out['counts'] = np.bincount(block[idx], minlength=G)
    return [out]


def run(check):
    deep = check.thorough
    check.model('Cur', 'Cur4.cfg' if deep else None)
    scns = check.scenarios('Cur', 'CurScn.cfg')
    r = np.random.RandomState(check.seed % (1 << 31))
    tasks = []
    for rep in range(3 if not deep else 60):
        for s in scns:
            seed = int(r.randint(1 << 30))
            label = ' '.join('%s=%s' % kv for kv in sorted(s.items())) \
                + ' seed=%d' % seed
            fn = dict(uoi=uoi, cur=cur, frequency=frequency)[s['case']]
            if s['case'] == 'frequency' and s['kind'] != 'uoi':
                for i in range(3):
                    tasks.append((fn, (s, seed + i, label), label))
            tasks.append((fn, (s, seed, label), label))
    r.shuffle(tasks)
    check.validate('CurTrace', core.record(tasks))
