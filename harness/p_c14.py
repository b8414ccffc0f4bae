"""C14: masked logistic regression is regression on the unmasked features."""
import core
import solver


def run(check):
    deep = check.thorough
    s0 = 1000 * (check.seed % 5000)
    tasks = []
    for i in range(24 if not deep else 400):
        tasks += [(solver.mask_cases, (s0 + i, 12), 'mask pairs'),
                  (solver.logistic_cases, (s0 + i, 20, 'C14', True),
                   'masked optimality')]
    check.validate('SolverTrace', core.record(tasks))
