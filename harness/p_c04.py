"""C04: a distributed fit equals the serial fit."""
import itertools
import json
import os
import sys

import numpy as np

import core
import fits
import mpi

EXHAUSTIVE = False
ASSUMPTIONS = (
    'ranks are processes which meet in collectives of a hub that releases '
    'them in chosen orders; runs under mpirun confirm the hub',
    'splits at one rank of the bootstraps depend on the seed only')
ATTRS = ('supports_', 'scores_', 'estimates_', 'rp_max_idx_', 'coef_',
         'intercept_')


def one_fit(comm, which, X, y, kw, strat):
    """What one rank (or the serial fit) ends with, and what it executed."""
    sink = []
    cls = fits.recording_class(fits.estimator(which), sink)
    rank = comm.rank if comm is not None else 0
    np.random.seed(1000 + 7 * rank)      # must not matter
    with fits.recording() as log:
        est = cls(comm=comm, **kw)
        if strat is None:
            est.fit(X, y)
        else:
            est.fit(X, y, stratify=strat)
        log = list(log)
    res = {a: mpi.digest(getattr(est, a)) for a in ATTRS
           if hasattr(est, a)}
    res['predict'] = mpi.digest(est.predict(X))
    sel, lm = [], []
    for item in log:
        if item[0] == 'sweep':
            d = mpi.digest(item[1], item[2])
            sel += [d + json.dumps(sorted(g.items())) for g in item[3]]
        elif item[0] == 'fit':
            A = item[2][0]
            if A.shape[0] < X.shape[0]:
                lm.append(mpi.digest(fits.dense(A), item[2][1]))
    return dict(res=res, sel=sel, est=lm)


def config(s, seed):
    """Data and parameters for P ranks, B and E bootstraps, R values."""
    r = np.random.RandomState(seed)
    w = ['lasso', 'lasso', 'enet', 'logistic', 'multinomial', 'poisson',
         'pyc'][r.randint(7)]
    which = {'pyc': 'lasso'}.get(w, w)
    kind = fits.KIND[which]
    glm = which in ('logistic', 'multinomial')
    n, p = (60, 4) if glm else (30, int(r.randint(1, 7)))
    sd = seed
    while True:
        X, y = fits.make_data(kind, n, p, sd)
        if not glm or np.bincount(y).min() >= 9:
            break
        sd += 1000
    special = r.randint(12)
    if special == 0 and not glm:
        y = np.full(n, 2.)                # constant: no resampling
    kw = dict(n_boots_sel=s['B'], n_boots_est=s['E'],
              selection_frac=[.8, .9, .7][r.randint(3)],
              estimation_frac=[.8, .9, .7][r.randint(3)],
              standardize=bool(r.rand() < .6),
              fit_intercept=bool(r.rand() < .6))
    rs = int(r.randint(1000))
    kw['random_state'] = [rs, np.int64(rs), np.random.RandomState(rs)][
        r.randint(3)]
    if r.rand() < .4:
        kw['stability_selection'] = [1, [.5, 1.], max(1, s['B'] - 1)][
            r.randint(3)]
        if kw['stability_selection'] == [.5, 1.] and s['B'] < 2:
            kw['stability_selection'] = 1
    warm = bool(r.rand() < .25)
    if glm:
        kw.update(n_C=s['R'], tol=1e-5, eps=1e-2, warm_start=warm,
                  shared_support=bool(r.rand() < .7))
    else:
        kw.update(n_lambdas=s['R'], eps=1e-2, tol=1e-7, max_iter=20000)
        if w == 'pyc':
            kw['solver'] = 'pyc'
            warm = True                   # (several values at once)
        else:
            kw['warm_start'] = warm
        if which == 'poisson':
            kw['solver'] = ['lbfgs', 'cd'][r.randint(2)]
        if which == 'enet':
            kw['alphas'] = [[.5], [.9, .5]][r.randint(2)]
    if r.rand() < .3:
        kw['estimation_score'] = ['BIC', 'AIC', 'AICc'][r.randint(3)]
    strat = y if glm or r.rand() < 0 else (
        np.arange(n) % 3 + 1 if r.rand() < .3 else None)
    if r.rand() < .2 and which in ('lasso', 'enet') and w != 'pyc':
        from scipy import sparse
        kw['fit_intercept'] = False       # centering would densify
        X = sparse.csr_matrix(np.where(abs(X) > .6, X, 0.))
    return which, X, y, kw, strat, warm


def record(s, seed, schedule):
    which, X, y, kw, strat, warm = config(s, seed)
    import copy
    P = s['P']
    serial, exc = core.attempt(one_fit, None, which, X, y,
                               copy.deepcopy(kw), strat)
    perms = list(itertools.permutations(range(P))) if P < 5 else None
    r = np.random.RandomState(seed + 1)

    def order(k, ranks):
        if schedule == 'parallel':
            return ranks
        if schedule == 'reverse':
            return ranks[::-1]
        return list(perms[r.randint(len(perms))] if perms
                    else r.permutation(P))

    out = mpi.run(P, lambda comm: one_fit(comm, which, X, y,
                                          copy.deepcopy(kw), strat),
                  order=None if schedule == 'parallel' else order)
    got = out['results']
    exact = not warm or P <= s['B']
    none = dict(res={}, sel=[], est=[])
    c = dict(kind='fit', P=P, problem=out['problem'], ops=out['ops'],
             excs=[e.split(':')[0] for e in out['excs']],
             serialexc=exc.split(':')[0], exact=exact,
             serial=(serial or none)['res'], serialsel=(serial or none)['sel'],
             serialest=(serial or none)['est'],
             ranks=[(g or none)['res'] for g in got],
             sel=[(g or none)['sel'] for g in got],
             est=[(g or none)['est'] for g in got],
             collectives=out['collectives'],
             label='%s P=%d B=%d R=%d E=%d seed=%d %s warm=%s' % (
                 which, P, s['B'], s['R'], s['E'], seed, schedule, warm))
    return [c]


def real(P, seeds, path):
    """The same fits under mpirun (this file run as a program)."""
    problem = mpi.mpirun(P, [__file__, path] + [json.dumps(s) for s in seeds],
                         path + '.*.*')
    if problem.startswith('start:'):
        return []
    out = []
    for i, (s, seed) in enumerate(seeds):
        which, X, y, kw, strat, warm = config(s, seed)
        serial, exc = core.attempt(one_fit, None, which, X, y, kw, strat)
        ranks = []
        for r in range(P):
            f = '%s.%d.%d' % (path, i, r)
            ranks.append(json.load(open(f)) if os.path.exists(f) else
                         dict(exc='lost', res={}, sel=[], est=[]))
        none = dict(res={}, sel=[], est=[])
        lost = any(g['exc'] == 'lost' for g in ranks)
        out.append(dict(
            kind='fit', P=P, problem=problem if lost else '', ops=[[]] * P,
            excs=[g['exc'] for g in ranks], serialexc=exc.split(':')[0],
            exact=not warm or P <= s['B'], serial=(serial or none)['res'],
            serialsel=(serial or none)['sel'],
            serialest=(serial or none)['est'],
            ranks=[g['res'] for g in ranks], sel=[g['sel'] for g in ranks],
            est=[g['est'] for g in ranks], collectives=-1,
            label='mpirun %s P=%d B=%d R=%d E=%d seed=%d warm=%s' % (
                which, P, s['B'], s['R'], s['E'], seed, warm)))
    return out


def run(check):
    deep = check.thorough
    check.model('UoIFit', 'UoIFit4.cfg' if deep else 'UoIFit.cfg')
    scns = check.scenarios('UoIFit', 'UoIFitScn.cfg')
    r = np.random.RandomState(check.seed % (1 << 31))
    kinds = {}
    for s in scns:
        kinds.setdefault((s['P'], s['bytask'], s['idle']), []).append(s)
    tasks = []
    for i in range(160 if not deep else 3000):
        k = sorted(kinds)[i % len(kinds)]
        s = kinds[k][r.randint(len(kinds[k]))]
        sched = ['parallel', 'random', 'reverse'][i % 3]
        tasks.append((record, (s, int(r.randint(1 << 30)), sched),
                      'fit %s' % (s,)))
    for P in ((2, 5) if not deep else (2, 3, 4, 5, 6)):
        seeds = [(dict(scns[r.randint(len(scns))], P=P),
                  int(r.randint(1 << 30))) for _ in range(6 if not deep
                                                          else 25)]
        tasks.insert(0, (real, (P, seeds, os.path.join(
            check.workdir, 'mpi%d' % P)), 'mpirun %d' % P))
    cases = core.record(tasks)
    check.note('collectives', sum(max(0, c.get('collectives', 0))
                                  for c in cases))
    check.validate('MpiTrace', cases)


def main():
    mpi.die_with_parent()
    import mpi4py
    mpi4py.rc.initialize = True
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    for i, a in enumerate(sys.argv[2:]):
        s, seed = json.loads(a)
        which, X, y, kw, strat, warm = config(s, seed)
        got, exc = core.attempt(one_fit, comm, which, X, y, kw, strat)
        res = dict(got or dict(res={}, sel=[], est=[]),
                   exc=exc.split(':')[0])
        with open('%s.%d.%d' % (sys.argv[1], i, comm.rank), 'w') as f:
            json.dump(res, f)
        if exc and core.attempt(one_fit, None, *config(s, seed)[:5])[0]:
            comm.Abort(3)        # the others may wait for this rank


if __name__ == '__main__':
    main()
