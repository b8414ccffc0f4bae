"""C08: models follow changes of units and order of the features."""
import numpy as np

import core
import fits
import relate

ASSUMPTIONS = ('pairs of fits whose zero patterns differ by rounding, or '
               'whose best scores are a draw, are compared by their sweeps '
               'only',)

KNOWN = 'all features negated, multinomial without intercept'


def change(kind, p, r, std, icpt, linear):
    c = relate.none(p)
    exact = True
    if kind['perm'] == 'reverse':
        c['perm'] = list(range(p))[::-1]
    elif kind['perm'] == 'rotate':
        c['perm'] = [(j + 2) % p for j in range(p)]
    elif kind['perm'] == 'swap':
        i, j = r.permutation(p)[:2]
        c['perm'][i], c['perm'][j] = int(j), int(i)
    exact &= c['perm'] == list(range(p))
    if kind['sign'] == 'first':
        c['sign'][r.randint(p)] = -1
    elif kind['sign'] == 'all':
        c['sign'] = [-1] * p
    elif kind['sign'] == 'mixed':
        c['sign'] = [int(s) for s in r.choice([-1, 1], p)]
    if std:
        if kind['scale'] == 'pow2':
            c['scale'] = (2. ** r.randint(-4, 5, p)).tolist()
        elif kind['scale'] == 'far':
            c['scale'] = (2. ** r.choice([-30, -20, 0, 20, 30], p)).tolist()
        elif kind['scale'] == 'any':
            c['scale'] = np.exp(r.uniform(-3, 3, p)).tolist()
            exact = False
        if icpt and kind['shift'] != 'none':
            c['shift'] = r.randint(-3, 4, p).astype(float) * (
                1 if kind['shift'] == 'small' else 100)
            # (in the units of the changed feature)
            c['shift'] = (c['shift'] * np.array(c['scale'])).tolist()
        if linear:
            if kind['ys'] == 'pow2':
                c['ys'] = float(2. ** r.choice([-40, -10, 3, 12, 40]))
            elif kind['ys'] == 'neg':
                c['ys'] = -2.
            elif kind['ys'] == 'any':
                c['ys'] = float(np.exp(r.uniform(-6, 6)))
                exact = False
            if icpt and kind['yt'] == 'some':
                c['yt'] = float(r.randint(-50, 50)) * abs(c['ys'])
    return c, exact


def apply(X, c):
    return np.ascontiguousarray(
        X[:, c['perm']] * np.array(c['sign']) * np.array(c['scale'])
        + np.array(c['shift']))


def record(fam, kind, seed, std, icpt, more, label):
    r = np.random.RandomState(seed)
    which, kw = relate.settings(fam, seed, std, icpt, **more)
    p = 5 if which != 'multinomial' else 4
    X, y, Z = relate.dyadic(fits.KIND[which], seed, p=p,
                            n=96 if which == 'multinomial' else 64)
    c, exact = change(kind, p, r, std, icpt, which in ('lasso', 'enet'))
    labels = np.unique(y).tolist() if 'n_C' in kw else None
    y2 = c['ys'] * y + c['yt'] if labels is None and (
        c['ys'], c['yt']) != (1., 0.) else y
    first = relate.observe(which, kw, X, y, Z, labels)
    second = relate.observe(which, kw, apply(X, c), y2, apply(Z, c), labels)
    K = 1
    if labels and (len(labels) > 2 or kw.get('multi_class')):
        K = len(labels)
    return [relate.pair('C08', fam, which, first, second, p, K, c, exact,
                        label, labels=len(labels or []))]


def run(check):
    deep = check.thorough
    check.model('Relate', workers=2)
    kinds = check.scenarios('Relate', 'RelateScn.cfg')
    r = np.random.RandomState(check.seed % (1 << 31))
    tasks = []
    metrics = {'real': ['r2', 'BIC', 'AIC', 'AICc'],
               'label': ['acc', 'log', 'BIC'], 'count': ['log', 'BIC']}
    fams = list(relate.FAMILIES)
    for fam in fams:
        m = metrics[relate.YTYPE[relate.FAMILIES[fam][0]]]
        for i in range(28 if not deep else 250):
            kind = dict(kinds[r.randint(len(kinds))])
            if i % 2 or fam == 'binary2':
                kind['perm'] = 'id'
            if fam == 'binary2':
                # two coefficient vectors for one difference: how the
                # penalized solutions split it is not determined
                kind.update(sign='none', scale='pow2')
            std = bool(i % 4) or fam == 'pyc'
            icpt = bool(r.rand() < .7) or fam == 'pyc'
            # (see the known finding below)
            if not icpt and fam in ('multinomial', 'free', 'binary2'):
                kind.update(perm='id', sign='none')
            more = dict(estimation_score=m[r.randint(len(m))])
            seed = int(r.randint(1 << 30))
            label = '%s std=%s icpt=%s %s %s seed=%d' % (
                fam, std, icpt, more, kind, seed)
            tasks.append((record, (fam, kind, seed, std, icpt, more, label),
                          label))
    # multinomial fits without an intercept start from the logits of the
    # class frequencies as coefficients of the last feature, and what is not
    # penalized keeps their mean
    kind = dict(perm='id', sign='all', scale='one', shift='none', ys='one',
                yt='none')
    tasks.append((record, ('multinomial', kind, 282023316, True, False,
                           dict(estimation_score='acc'), KNOWN), KNOWN))
    fits.install()
    cases = core.record(tasks, timeout=90)
    for c in cases:
        if c.get('exact'):
            check.note('pairs without rounding')
    check.validate('RelateTrace', cases, only='C08')
