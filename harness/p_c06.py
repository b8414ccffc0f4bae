"""C06: seeded runs are reproducible and use their own generator only."""
import numpy as np

import core
import fits
import history

ASSUMPTIONS = ('NumPy\'s global generator is the legacy one '
               '(numpy.random.mtrand._rand)',)


def seeds(r):
    """The same seed in its different forms."""
    s = int(r.choice([0, r.randint(1, 1 << 20), (1 << 31) - 2],
                     p=[.25, .65, .1]))
    return s, [lambda: s, lambda: np.int64(s), lambda: np.int32(s),
               lambda: np.uint32(s)], \
        [lambda: np.random.RandomState(s)] * 2


def record(name, seed, label):
    r = np.random.RandomState(seed)
    h = history.History(name, seed)
    d = int(r.randint(1, 7)) if not name.startswith('nmf') else \
        int(r.choice([1, 2, 3, 4, 6]))
    s, ints, gens = seeds(r)
    r.shuffle(ints)
    o = 0
    for mk in [f for f in ints[:2]] + gens + [
            lambda: s + 1, lambda: np.random.RandomState(s + 1)]:
        o += 1
        if r.rand() < .7:
            h.touch()
        seed_ = mk()
        h.new(o, seed_)
        if r.rand() < .7:
            h.touch()
        h.fit(o, d)
        if isinstance(seed_, np.random.RandomState) and r.rand() < .6:
            # the same generator goes on with another object
            h.new(o + 100, seed_)
            h.fit(o + 100, d)
        if not h.events[-1]['exc'] and r.rand() < .5:
            h.query(h.events[-1]['o'], 1)
    return [h.case('%s d=%d seed=%d' % (label, d, s))]


def run(check):
    deep = check.thorough
    check.model('History', 'History4.cfg' if deep else None)
    fits.install()
    r = np.random.RandomState(check.seed % (1 << 31))
    tasks = []
    for name in history.SUBJECTS:
        few = 6 if name in history.MODELS else 8
        for i in range(few if not deep else 25 * few):
            tasks.append((record, (name, int(r.randint(1 << 30)), str(i)),
                          name))
    r.shuffle(tasks)
    check.validate('HistoryTrace', core.record(tasks), only='C06')
