"""What the caller of a model meant by stability_selection, exactly."""
from fractions import Fraction
import math


def counts(s, n):
    """Whole numbers of bootstraps (the decimal a float was written as)."""
    def one(v):
        if isinstance(v, float):
            return math.floor(Fraction(repr(float(v))) * n)
        return int(v)
    if hasattr(s, 'tolist'):
        s = s.tolist()
    return [one(v) for v in s] if isinstance(s, list) else [one(s)]
