"""C02: the winner of each bootstrap and the median over the bootstraps."""
import fits

ASSUMPTIONS = ('estimation fits go through LinearRegression, '
               'MaskedCoefLogisticRegression or Poisson (otherwise the '
               'unpenalized fits are not observed, and only counted)',)


def run(check):
    deep = check.thorough
    check.model('MCWinner')
    # discrete scores have ties, many bootstraps have interesting medians
    check.validate('FitTrace', fits.lattice(
        check, 300 if deep else 30), only='C02')
    check.validate('FitTrace', fits.lattice(
        check, 200 if deep else 15, offset=5,
        keep=lambda s: s['metric'] == 'acc' or s['boots'][1] >= 4),
        only='C02')
