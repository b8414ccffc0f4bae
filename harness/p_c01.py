"""C01: supports are the stability intersections of the sweeps."""
import numpy as np

import core
import fits

EXHAUSTIVE = False
ASSUMPTIONS = ('the public method uoi_selection_sweep performs the selection '
               'sweeps (a fit that bypasses it is checked for its supports '
               'only where they are recorded)',)


def coefs_of(sel, r):
    """Coefficients with the zero pattern of sel."""
    sel = np.array(sel)
    mag = r.choice([1., 1e-3, 1e-12, 5e-324, 1e300], sel.shape)
    c = mag * r.choice([-1., 1.], sel.shape)
    return np.where(sel == 1, c, r.choice([0., -0.], sel.shape))


def direct(scns, seed):
    from pyuoi.linear_model.utils import intersection
    r = np.random.RandomState(seed)
    out = []
    for s in scns:
        d = s['dim']
        a = coefs_of(s['sel'], r)
        if r.rand() < .3:
            a = np.asfortranarray(a)
        got, exc = core.attempt(intersection, a, np.array(d['thr']))
        out.append(dict(sel=s['sel'], thr=d['thr'], K=1, p=d['F'],
                        shared=True, exc=exc, got=masks(got)))
        if d['thr'] == [d['B']]:
            got, exc = core.attempt(intersection, a)
            out.append(dict(sel=s['sel'], thr=d['thr'], K=1, p=d['F'],
                            shared=True, exc=exc, got=masks(got)))
    return out


def masks(got):
    return [] if got is None else [[bool(v) for v in row]
                                   for row in np.atleast_2d(got)]


def random_scn(n, seed, large=0):
    r = np.random.RandomState(seed)
    out = []
    for i in range(n + large):
        B, R, F = r.randint(1, 9), r.randint(1, 8), r.randint(1, 12)
        if i >= n:
            B, R, F = [(4, 300, 16), (40, 20, 12), (3, 4, 400), (2, 700, 11),
                       (120, 3, 20)][i % 5]
        q = r.rand(1, R, 1) * .5 + r.rand() * .5
        sel = (r.rand(B, R, F) < q).astype(int)
        thr = [int(v) for v in r.randint(1, B + 1, r.randint(1, 4))]
        out.append(dict(dim=dict(B=B, R=R, F=F, K=1, thr=thr, shared=True),
                        sel=sel.tolist()))
    return out


def table_fit(which, sel, thr, K, p, shared, seed):
    """A fit whose selection sweeps return a table."""
    r = np.random.RandomState(seed)
    B, R = len(sel), len(sel[0])
    tab = coefs_of(sel, r)
    tab = np.where(abs(tab) > 1e10, 1., tab)
    kind = {'logistic': 'logistic', 'poisson': 'poisson'}.get(which, 'linear')
    if which == 'multinomial':
        kind = 'multinomial' if K > 2 else 'logistic'
    X, y = fits.make_data(kind, 24, p, seed, classes=K)
    if kind in ('logistic', 'multinomial'):
        y = r.permutation(np.arange(24) % max(2, K))
    kw = dict(n_boots_sel=B, n_boots_est=1, stability_selection=thr,
              random_state=1, selection_frac=.8, estimation_frac=.8)
    if which in ('logistic', 'multinomial'):
        kw.update(n_C=R, shared_support=shared, tol=1e-2,
                  multi_class='multinomial' if K > 1 else 'auto')
    else:
        kw.update(n_lambdas=R)
    if which == 'enet':
        kw.update(alphas=[.5])
    cls = fits.estimator(which)
    calls = []

    class Table(cls):
        def uoi_selection_sweep(self, X, y, reg_param_values):
            b = len(calls)
            calls.append(b)
            rows = []
            for reg in reg_param_values:
                i = [k for k, d in enumerate(self.reg_params_) if d == reg]
                rows.append(tab[b, i[0] if i else 0])
            return np.array(rows)

    est, exc = core.attempt(lambda: Table(**kw).fit(X, y))
    got = masks(getattr(est, 'supports_', None)) if est is not None else []
    if not exc and len(calls) != B:
        return []          # the sweeps did not go through the table
    return [dict(sel=sel, thr=thr, K=K, p=p, shared=shared, exc=exc, got=got)]


def table_tasks(n, seed, scns):
    r = np.random.RandomState(seed)
    tasks = []
    for i in range(n):
        which = ['lasso', 'enet', 'logistic', 'poisson', 'multinomial',
                 'multinomial'][i % 6]
        K = 1
        B, R = int(r.randint(1, 6)), int(r.randint(1, 6))
        if which == 'multinomial':
            K = int(r.randint(2, 5))
        p = int(r.randint(1, 5)) if i % 4 else 1
        q = r.rand()
        sel = (r.rand(B, R, K * p) < q).astype(int).tolist()
        thr = [int(v) for v in r.randint(1, B + 1, r.randint(1, 3))]
        shared = bool(r.rand() < .5) or K == 1
        tasks.append((table_fit, (which, sel, thr, K, p, shared, i + 1),
                      'table %s B=%d R=%d K=%d p=%d shared=%s thr=%s'
                      % (which, B, R, K, p, shared, thr)))
    for i in r.permutation(len(scns))[:n]:
        s = scns[i]
        d = s['dim']
        if d['K'] > 1:
            tasks.append((table_fit, ('multinomial', s['sel'], d['thr'], 2, 2,
                                      d['shared'], int(i)),
                          'table small shared=%s' % d['shared']))
    return tasks


def run(check):
    deep = check.thorough
    check.model('MCCore')
    scns = check.scenarios('MCCore', 'MCCoreScn.cfg')
    more = random_scn(20000 if deep else 2000, check.seed,
                      50 if deep else 10)
    parts = [scns + more[i::8] if i == 0 else more[i::8] for i in range(8)]
    tasks = [(direct, (p, check.seed + i), 'intersection') for i, p in
             enumerate(parts)]
    tasks += table_tasks(2000 if deep else 150, check.seed, scns)
    check.validate('CoreTrace', core.record(tasks))
    check.validate('FitTrace', fits.lattice(check, 500 if deep else 30),
                   only='C01')
