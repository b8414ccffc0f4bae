"""C15: penalized fits satisfy their optimality conditions."""
import core
import fits
import solver


def run(check):
    deep = check.thorough
    n, m = (8, 500) if not deep else (80, 1000)
    s0 = 1000 * (check.seed % 5000)
    tasks = []
    for i in range(16 if not deep else 160):
        tasks += [(solver.poisson_cases, (s0 + i, 18), 'Poisson'),
                  (solver.logistic_cases, (s0 + i, 18), 'Masked'),
                  (solver.sweep_cases, (s0 + i, 10), 'sweeps')]
    check.validate('SolverTrace', core.record(tasks))
    check.validate('FitTrace', fits.lattice(
        check, 200 if deep else 15, offset=15), only=('C15', 'C01.row',
                                                      'C01.sweep'))
