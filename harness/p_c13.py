"""C13: class labels are only names."""
import numpy as np

import core
import fits
import relate

ASSUMPTIONS = ('fits of exchanged classes are compared by their sweeps only '
               'if zero patterns differ by rounding or the best scores are a '
               'draw',)
EXACT = '1e-12'


def names(how, K, r):
    """K labels in increasing order."""
    if how == 'ints':
        return np.arange(K)
    if how == 'ones':
        return np.arange(K) + 1
    if how == 'negative':
        return np.arange(K) - K - int(r.randint(9))
    if how == 'gaps':
        return np.sort(r.permutation(1000)[:K]) * 7 - 3000
    if how == 'few':
        return np.sort(r.permutation(max(5, K + 1))[:K]) - r.randint(2)
    if how == 'big':
        return np.arange(K) * 10 ** 12 + 2 ** 40
    if how == 'floats':
        return np.sort(r.permutation(50)[:K]) / 4. - 3
    if how == 'small':
        return np.arange(K).astype(np.int8) - 1
    if how == 'unsigned':
        return (np.arange(K) * (100 if K < 3 else 40) + 5).astype(np.uint8)
    if how == 'strings':
        return np.array(['class %c' % c for c in sorted(
            r.permutation(list(b'abcdefgh'))[:K])])
    if how == 'digits':        # sorted as strings
        return np.array(sorted(['10', '9', '2', '33', '100', '7'])[:K])
    if how == 'objects':
        return np.array(['a', 'bcd', 'ef', 'g', 'hh', 'zoo'][:K], dtype=object)
    return np.array([False, True])


HOW = ['ones', 'few', 'negative', 'gaps', 'big', 'floats', 'small', 'unsigned',
       'few',
       'strings', 'digits', 'objects', 'bools']


def uoi(fam, how, seed, std, icpt, more, strat, label):
    r = np.random.RandomState(seed)
    which, kw = relate.settings(fam, seed, std, icpt, **more)
    p = 4
    classes = int(r.choice([3, 3, 4, 6]))
    X, y, Z = relate.dyadic(fits.KIND[which], seed, p=p, classes=classes,
                            n=72 if classes == 3 else 240)
    K = len(np.unique(y))
    a = names('ints', K, r)
    rev = how == 'reversed'
    b = a if rev else names(how, K, r)
    y2 = 1 - y if rev else b[y]
    first = relate.observe(which, kw, X, y, Z, a.tolist(),
                           y if strat else None)
    second = relate.observe(which, kw, X, y2, Z, b.tolist(),
                            y2 if strat else None)
    rows = K if K > 2 or kw.get('multi_class') else 1
    c = relate.none(p)
    c['reversed'] = rev
    return [relate.pair('C13', fam, which, first, second, p, rows, c,
                        not rev, label, labels=K,
                        **({} if rev else dict(tol=EXACT, etol=EXACT)))]


def masked(how, seed, label):
    """The masked logistic regression on its own."""
    from pyuoi.linear_model.logistic import MaskedCoefLogisticRegression
    r = np.random.RandomState(seed)
    K = 2 if how in ('bools', 'reversed') else [2, 3, 5][r.randint(3)]
    multi = [
        'auto', 'multinomial'][r.randint(2)] if how != 'reversed' else 'auto'
    p = 4
    X, y, Z = relate.dyadic('logistic' if K == 2 else 'multinomial', seed,
                            p=p, n=72 if K < 5 else 200, classes=K)
    rows = K if K > 2 or multi == 'multinomial' else 1
    penalty = ['l1', 'l2'][r.randint(2)]
    kw = dict(penalty=penalty, C=[.05, .5, 5.][r.randint(3)],
              multi_class=multi, tol=1e-9, max_iter=20000,
              standardize=bool(r.randint(2)),
              fit_intercept=bool(r.randint(4)))
    weights = [None, 'balanced', 'dict'][r.randint(3)]
    mask = None
    if r.randint(2):
        mask = r.rand(rows, p) < .7
        mask[:, 0] = True
        if rows == 1:
            mask = mask[0]
    sw = r.randint(1, 4, len(y)).astype(float) if r.randint(2) else None
    a = names('ints', K, r)
    rev = how == 'reversed'
    b = a if rev else names(how, K, r)
    w = [.5, 2., 1.25, 1., 3.][:K]
    out = []
    for lab, yy in ((a, y), (b, 1 - y if rev else b[y])):
        res = dict(exc='', W=[], b=[], shape=[], sweeps=[], supports=[],
                   scores=[], pred=[], proba=[], mean=[], classes=[],
                   X=Z, xabs=abs(X).max(axis=0), wscale=0.)
        cw = weights
        if weights == 'dict':
            v = w[::-1] if rev and len(out) else w
            cw = dict(zip(lab.tolist(), v))

        def go():
            lm = MaskedCoefLogisticRegression(class_weight=cw, **kw)
            lm.fit(X, yy, coef_mask=mask, sample_weight=sw)
            return lm, lm.predict(Z), lm.predict_proba(Z)
        got, exc = core.attempt(go)
        if exc:
            res['exc'] = exc.split(':')[0]
        else:
            lm, pred, proba = got
            coef = np.asarray(lm.coef_, float)
            known = lab.tolist()
            icpt = np.asarray(getattr(lm, 'intercept_', 0.), float).ravel()
            res.update(
                W=coef.ravel(), shape=list(coef.shape),
                b=np.zeros(rows) + icpt, sweeps=[coef.reshape(1, -1)],
                pred=[known.index(c) + 1 if c in known else 0
                      for c in pred.tolist()], proba=proba,
                classes=[known.index(c) + 1 if c in known else 0
                         for c in lm.classes_.tolist()],
                wscale=float(abs(coef).max()))
        out.append(res)
    c = relate.none(p)
    c['reversed'] = rev
    return [relate.pair('C13', 'masked', 'logistic', out[0], out[1], p, rows,
                        c, not rev, '%s %s weights=%s mask=%s' % (
                            label, kw, weights, mask is not None), labels=K,
                        **({} if rev else dict(tol=EXACT, etol=EXACT)))]


def run(check):
    deep = check.thorough
    check.model('Labels', 'Labels4.cfg' if deep else None, workers=2)
    r = np.random.RandomState(check.seed % (1 << 31))
    tasks = []
    fams = ['logistic', 'multinomial', 'binary2', 'free']
    metrics = ['acc', 'log', 'AIC', 'AICc', 'BIC']
    for rep in range(3 if not deep else 40):
        for i, how in enumerate(HOW + ['reversed'] * 4):
            for fam in fams if deep else [fams[(i + check.seed) % 4],
                                          fams[r.randint(4)]]:
                if how == 'bools' and fam in ('multinomial', 'free'):
                    fam = 'logistic'
                if how == 'reversed':
                    fam = 'logistic'
                metric = metrics[r.randint(5)]
                if how == 'reversed':
                    metric = metrics[1 + r.randint(4)]
                seed = int(r.randint(1 << 30))
                std, icpt = bool(r.randint(2)), bool(r.randint(4))
                strat = bool(r.randint(2)) and how != 'reversed'
                label = '%s %s std=%s icpt=%s %s strat=%s seed=%d' % (
                    fam, how, std, icpt, metric, strat, seed)
                tasks.append((uoi, (fam, how, seed, std, icpt,
                                    dict(estimation_score=metric), strat,
                                    label), label))
            for _ in range(4):
                seed = int(r.randint(1 << 30))
                label = 'masked %s seed=%d' % (how, seed)
                tasks.append((masked, (how, seed, label), label))
    fits.install()
    cases = core.record(tasks, timeout=90)
    check.validate('RelateTrace', cases, only='C13')
