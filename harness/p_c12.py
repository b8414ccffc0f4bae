"""C12: scores are the documented criteria."""
import numpy as np

import core
import fits


def direct(num, seed):
    from pyuoi import utils
    r = np.random.RandomState(seed)
    out = []

    def add(fn, call, **kw):
        got, exc = core.attempt(call)
        out.append(dict(fn=fn, got=float(got) if exc == '' else 0., exc=exc,
                        bad=False, **kw))
    for i in range(num):
        k, n = int(r.randint(0, 40)), int(r.randint(1, 60))
        if i % 3 == 0:
            n = max(1, k + int(r.randint(-1, 4)))
        ll = float(r.randn() * 10. ** r.randint(-3, 4))
        add('AIC', lambda: utils.AIC(ll, k), ll=ll, k=k, n=n)
        add('BIC', lambda: utils.BIC(ll, k, n), ll=ll, k=k, n=n)
        add('AICc', lambda: utils.AICc(ll, k, n), ll=ll, k=k, n=n)
        m = int(r.randint(1, 20))
        y = r.randn(m) * 3
        mu = y + r.randn(m) * r.choice([.1, 1, 10])
        add('ll', lambda: utils.log_likelihood_glm('normal', y, mu),
            model='normal', y=y, mu=mu)
        yc = r.poisson(r.choice([.3, 2., 50.]), m).astype(float)
        mp = np.exp(r.randn(m))
        if i % 7 == 0:
            mp = np.zeros(m)
            if i % 2:
                yc = np.zeros(m)
        elif i % 7 == 1:
            yc = np.zeros(m)
        add('ll', lambda: utils.log_likelihood_glm('poisson', yc, mp),
            model='poisson', y=yc, mu=mp)
    got, exc = core.attempt(utils.log_likelihood_glm, 'nosuch', np.ones(2),
                            np.ones(2))
    out.append(dict(fn='ll', got=0., exc=exc, bad=True, model='normal',
                    y=[0., 1.], mu=[0., 2.]))
    return out


def run(check):
    deep = check.thorough
    tasks = [(direct, (3000 if deep else 300, check.seed + i), 'criteria')
             for i in range(8)]
    check.validate('ScoreTrace', core.record(tasks))
    check.validate('FitTrace', fits.lattice(
        check, 500 if deep else 40, offset=12), only='C12')
    # few samples, many features: the corrected AIC is undefined
    check.validate('FitTrace', fits.lattice(
        check, 200 if deep else 12, offset=13,
        keep=lambda s: s['metric'] == 'AICc'), only='C12')
