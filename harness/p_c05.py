"""C05: the MPI helpers deliver the root's array and the rows in rank order."""
import json
import os
import sys

import numpy as np

import h5py
from pyuoi import mpi_utils

import core
import mpi

EXHAUSTIVE = False
ASSUMPTIONS = (
    'ranks are processes which meet in collectives of a hub that releases '
    'them in chosen orders; runs under mpirun confirm the hub',)
SPECIAL = [0., -0., np.inf, -np.inf, 1e-310, 1.5e300, -1. / 3, np.pi]


def array(shape, t, rep, seed):
    """An array of distinct and special values in some layout."""
    r = np.random.RandomState(seed)
    size = int(np.prod(shape, dtype=int))
    d = np.dtype(t)
    if d.kind == 'f':
        v = r.randn(size)
        v[::5] = np.resize(SPECIAL, v[::5].size)
        with np.errstate(over='ignore'):
            v = v.astype(d)
    else:
        i = np.iinfo(d)
        v = r.randint(i.min, i.max, size=size).astype(d)
        v[::7] = i.max
    a = v.reshape(shape)
    if a.ndim == 0:
        a = a.copy()
    elif rep == 'F':
        a = np.asfortranarray(a)
    elif rep == 'strided':
        b = np.zeros((2 * shape[0],) + tuple(shape[1:-1]) +
                     ((3 * shape[-1],) if len(shape) > 1 else ()), d)
        view = b[::2, ..., ::3] if len(shape) > 1 else b[::2]
        view[...] = a
        a = view
    elif rep == 'reversed':
        a = np.ascontiguousarray(a[::-1])[::-1]
    elif rep == 'transposed':
        a = np.ascontiguousarray(a.T).T
    if rep == 'readonly':
        a.setflags(write=False)
    return a


def describe(a):
    if a is None:
        return dict(kind='none')
    if not isinstance(a, np.ndarray):
        return dict(kind='other', value=repr(a)[:60])
    return dict(kind='array', shape=list(a.shape), dtype=a.dtype.name,
                data=[x.hex() if isinstance(x, float) else str(x)
                      for x in a.ravel().tolist()])


def inputs(s, seed):
    P, root = s['P'], s['root']
    if s['what'] == 'load':
        shape = [s['rows'][0]] + s['tail']
        other = ['f8', 'f4', 'i8', 'i4'][seed % 4]
        return [array(shape, s['type'], 'C', seed),
                array([s['rows'][0]], other, 'C', seed + 1)]
    out = []
    for r in range(P):
        if s['what'] == 'Gatherv':
            shape = [s['rows'][r]] + s['tail']
            # the ranks need not hold the same layout
            rep = ['C', 'F', 'strided', 'reversed', 'readonly',
                   'transposed'][(seed + r) % 6]
            a = array(shape, s['type'], rep, seed + r)
            if s['others'] == 'rubbish' and r == (root + 1) % P:
                a = [[[1., 2.]], 3., 'x', (1,), {'a': 1}, 7,
                     np.float64(2)][seed % 7]
            out.append(a)
            continue
        shape = [] if s['rows'][0] < 0 else s['rows'] + s['tail']
        if r == root:
            a = array(shape, s['type'], s['rep'], seed)
            if s['others'] == 'rubbish' and seed % 2:
                a = [[[1., 2.]], 3., 'x'][seed % 3]
        elif s['others'] == 'none':
            a = None
        elif s['others'] == 'same':
            a = array(shape, s['type'], s['rep'], seed + 1 + r)
        elif s['others'] == 'shape':
            a = array([7, 2], s['type'], s['rep'], seed + r)
        elif s['others'] == 'type':
            a = array(shape, 'i4' if s['type'] != 'i4' else 'f8', s['rep'],
                      seed + r)
        else:
            a = [[[1., 2.]], 3., 'x', (1,), 7][(seed + r) % 5] \
                if seed % 2 == 0 else None
        out.append(a)
    return out


def call(comm, s, send, path, size=None):
    """One helper call on this rank; what it gives."""
    kw = dict(comm=comm)
    if not (s['root'] == 0 and s.get('implicit')):
        kw['root'] = s['root']
    if s['what'] == 'load':
        if s['others'] == 'keys':
            kw.update(X_key='data/inputs', y_key='out')
        X, y = mpi_utils.load_data_MPI(path, **kw)
        return [describe(X), describe(y)], True
    rank = s['rank_of'](comm)
    a = send[rank]
    before = describe(a)
    if s['what'] == 'Bcast':
        got = mpi_utils.Bcast_from_root(a, **kw)
    else:
        got = mpi_utils.Gatherv_rows(a, **kw)
    return describe(got), before == describe(a)


def write(s, send, path):
    k = ('data/inputs', 'out') if s['others'] == 'keys' else ('X', 'y')
    with h5py.File(path, 'w') as f:
        f[k[0]], f[k[1]] = send
        if s['others'] == 'keys':
            f['X'] = f['y'] = np.zeros(2)


def case(s, send, out, label):
    got = out['results']
    load = s['what'] == 'load'
    return dict(kind='helper', what=s['what'], root=s['root'],
                send=[describe(a) for a in send], P=s['P'],
                got=[g[0] if g else ([dict(kind='lost')] * 2 if load else
                                     dict(kind='lost')) for g in got],
                unchanged=all(g is None or g[1] for g in got),
                excs=[e.split(':')[0] for e in out['excs']],
                problem=out['problem'], ops=out['ops'], label=label)


def record(s, seed, path):
    send = inputs(s, seed)
    r = np.random.RandomState(seed)
    if s['what'] == 'load':
        write(s, send, path)
    sched = seed % 3
    s = dict(s, rank_of=lambda comm: comm.rank, implicit=seed % 4 == 0)

    def order(k, ranks):
        return list(r.permutation(ranks))
    out = mpi.run(s['P'], lambda comm: call(comm, s, send, path),
                  order=order if sched else None)
    del s['rank_of']
    if os.path.exists(path):
        os.remove(path)
    return [case(s, send, out, '%s seed=%d' % (json.dumps(
        {k: s[k] for k in sorted(s)}), seed))]


def real(P, todo, path):
    """The same calls under mpirun, with the default communicator."""
    for i, (s, seed) in enumerate(todo):
        if s['what'] == 'load':
            write(s, inputs(s, seed), '%s.h5.%d' % (path, i))
    with open(path, 'w') as f:
        json.dump(todo, f)
    problem = mpi.mpirun(P, [__file__, path], path + '.rank*')
    if problem.startswith('start:'):
        return []
    res = []
    for r in range(P):
        f = '%s.rank%d' % (path, r)
        res.append([json.loads(x) for x in open(f)] if os.path.exists(f)
                   else [])
    cases = []
    for i, (s, seed) in enumerate(todo):
        got = [x[i] if i < len(x) else None for x in res]
        lost = problem if None in got else ''
        cases.append(case(s, inputs(s, seed), dict(
            results=[g and g['got'] for g in got], problem=lost,
            excs=[g['exc'] if g else '' for g in got], ops=[[]] * P),
            'mpirun %s seed=%d' % (json.dumps(s), seed)))
    return cases


def run(check):
    deep = check.thorough
    check.model('Helpers')
    scns = check.scenarios('Helpers', 'HelpersScn.cfg')
    r = np.random.RandomState(check.seed % (1 << 31))
    kinds = {}
    for s in scns:
        if s['what'] == 'Gatherv':
            s['tail'] = [[], [1], [3], [2, 2], [0], [2, 1, 3]][r.randint(6)]
            s['type'] = ['f4', 'f8', 'i8', 'i4'][r.randint(4)]
        if s['others'] == 'rubbish' and s['what'] == 'Gatherv' \
                and r.rand() < .8:
            continue
        key = (s['what'], s['P'], s['others'] == 'rubbish', s['root'])
        kinds.setdefault(key, []).append(s)
    tasks = []
    for i in range(800 if not deep else 12000):
        k = sorted(kinds)[i % len(kinds)]
        s = kinds[k][r.randint(len(kinds[k]))]
        if i % 20 == 19 and s['rows'][0] >= 0:       # (larger arrays)
            s = dict(s, rows=[v * 97 for v in s['rows']])
        tasks.append((record, (s, int(r.randint(1 << 30)), os.path.join(
            check.workdir, 'load%d.h5' % i)), 'helper %s' % (s,)))
    valid = [s for k in sorted(kinds) for s in kinds[k] if not k[2]]
    for P in ((2, 4) if not deep else (1, 2, 3, 4)):
        own = [s for s in valid if s['P'] == P]
        todo = [(own[r.randint(len(own))], int(r.randint(1 << 30)))
                for _ in range(60 if not deep else 400)]
        tasks.insert(0, (real, (P, todo, os.path.join(
            check.workdir, 'mpi%d' % P)), 'mpirun %d' % P))
    check.validate('MpiTrace', core.record(tasks))


def main():
    mpi.die_with_parent()
    import mpi4py
    mpi4py.rc.initialize = True
    from mpi4py import MPI
    path = sys.argv[1]
    rank = MPI.COMM_WORLD.rank
    with open('%s.rank%d' % (path, rank), 'w') as f:
        for i, (s, seed) in enumerate(json.load(open(path))):
            send = inputs(s, seed)
            s = dict(s, rank_of=lambda comm: rank)
            got, exc = core.attempt(
                call, None if seed % 2 else MPI.COMM_WORLD, s, send,
                '%s.h5.%d' % (path, i))
            f.write(json.dumps(dict(got=got, exc=exc.split(':')[0])) + '\n')
            f.flush()
            if exc:
                f.close()
                MPI.COMM_WORLD.Abort(3)


if __name__ == '__main__':
    main()
