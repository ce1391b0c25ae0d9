"""Metamorphic oracle: scaling the plane by a power of two is exact in floats, results of degree d are multiplied by its power d"""

import math

from hypothesis import strategies as st

from . import num
from .harness import fail

exponent = st.sampled_from([-24, -20, -16, -12, -8, -4, 4, 8, 12, 16, 20, 24])


def scaled(x, k):
    """Scale a number, a point or a nested sequence of them"""
    if isinstance(x, (list, tuple)):
        return type(x)(scaled(y, k) for y in x)
    return x * 2.**k


def _same(a, b, factor, magnitude, rtol):
    if any(isinstance(x, (bool, str)) or x is None for x in (a, b)):
        return a == b
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(_same(x, y, factor, magnitude, rtol) for x, y in zip(a, b))
    a, b = float(a) * factor, float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= rtol * max(abs(a), abs(b), magnitude * factor)


def _plain(x):
    if hasattr(x, 'x') and hasattr(x, 'y') and not isinstance(x, (int, float)):
        return num.xy(x)
    if isinstance(x, (list, tuple)):
        return [_plain(y) for y in x]
    if type(x).__name__ in ('bool_', 'bool'):
        return bool(x)
    return x


def call(function):
    """Value of the function, or the name of the exception it raises"""
    try:
        return _plain(function())
    except (ValueError, ZeroDivisionError, NameError, ArithmeticError) as exception:
        return type(exception).__name__


def verify(evaluate, data, k, rtol=1e-9):
    """*evaluate* is called with *data* then with *data* scaled by 2**k, and gives ``{name: (degree, function)}``"""
    reference = {name: (degree, call(function)) for name, (degree, function) in evaluate(*data).items()}
    others = {name: call(function) for name, (_, function) in evaluate(*scaled(data, k)).items()}
    magnitude = _magnitude(data)
    for name, (degree, value) in reference.items():
        if not _same(value, others[name], 2.**(k * degree), magnitude**degree if degree else 1, rtol):
            fail('{} of {} is {}, scaled by 2**{} it is {}', name, data, value, k, others[name])


def _magnitude(x):
    if isinstance(x, (list, tuple)):
        return max((_magnitude(y) for y in x), default=0)
    return abs(x)
