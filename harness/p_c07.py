"""C07: a fit depends on its own data only."""
import numpy as np

import core
import fits
import history

ASSUMPTIONS = ('a constant response leaves the supports of an earlier fit '
               'in place: only coefficients, intercept and predictions are '
               'compared there',)


def record(name, hist, seed, label):
    """A history: objects 1 and 2 have the same parameters and their own or
    a common generator; every fit is repeated by a new object."""
    r = np.random.RandomState(seed)
    h = history.History(name, seed)
    s = int(r.randint(1, 1 << 20))
    common = np.random.RandomState(s)
    how = r.randint(3)
    for o in (1, 2):
        h.new(o, [s + o, np.random.RandomState(s + o), common][how])
    extra, fitted = 0, []
    for ev in hist:
        o, d = ev['o'], ev['d']
        if ev['op'] == 'touch':
            h.touch()
        elif ev['op'] == 'query':
            if not [e for e in h.events if e['ev'] == 'fit'
                    and e['o'] == o][-1]['exc']:
                h.query(o, d)
        else:
            pre = history.before(h.objs[o][0], h.objs[o][1])
            h.fit(o, d, deep=r.rand() < .5)
            extra += 1
            h.fresh_like(o, pre, d, 100 + extra)
            fitted.append(o)
    for o in sorted(set(fitted)):
        if not [e for e in h.events if e['ev'] == 'fit'
                and e['o'] == o][-1]['exc']:
            h.query(o, 1)
            h.query(o, 1)
    return [h.case('%s %s' % (label, ' '.join(
        '%(op)s(%(o)d,%(d)d)' % e for e in hist)))]


def warm(which, seed, kw):
    """Sweeps with and without warm starting."""
    r = np.random.RandomState(seed)
    sub = history.Linear(which, **kw)
    d = int(r.choice([1, 2, 3]))
    data = sub.data(d, seed % 1000)
    tight = dict(tol={'logistic': 1e-8, 'multinomial': 1e-8,
                      'poisson': 1e-9}.get(which, 1e-10),
                 max_iter=100000)
    tol = {'logistic': '2e-3', 'multinomial': '2e-3',
           'poisson': '1e-3'}.get(which, '1e-5')
    sweeps = []
    for w in (True, False):
        obj = sub.make(seed % 1000, warm_start=w, **tight)
        _, exc = core.attempt(sub.run, obj, data)
        sweeps.append([] if exc else [
            got for A, y, regs, got in sub.sweeps])
    events = [dict(ev='same', clause='C07.warm', rtol=tol, atol=tol,
                   a=history.val(a), b=history.val(b))
              for a, b in zip(*sweeps)]
    return [dict(events=events, label='warm %s %s seed=%d' % (
        which, kw, seed))]


def run(check):
    deep = check.thorough
    check.model('History', 'History4.cfg' if deep else None)
    scns = check.scenarios('History', 'HistoryScn.cfg')
    fits.install()
    r = np.random.RandomState(check.seed % (1 << 31))
    tasks = []
    for name in history.MODELS:
        hs = [h for h in scns if 'nmf' not in name or all(
            e['op'] != 'fit' or e['d'] != 5 for e in h)]
        for i in range(9 if not deep else 150):
            h = hs[r.randint(len(hs))]
            tasks.append((record, (name, h, int(r.randint(1 << 30)),
                                   str(i)), name))
    for i in range(3 if not deep else 40):
        for which, kw in (('lasso', {}), ('enet', {'alphas': [.9, .4]}),
                          ('logistic', {}), ('multinomial', {}),
                          ('multinomial', {'shared_support': False}),
                          ('poisson', {}), ('poisson', {'solver': 'cd'}),
                          ('poisson', {'standardize': False}),
                          ('logistic', {'standardize': False})):
            tasks.append((warm, (which, int(r.randint(1 << 30)), kw),
                          'warm ' + which))
    r.shuffle(tasks)
    check.validate('HistoryTrace', core.record(tasks), only='C07')
