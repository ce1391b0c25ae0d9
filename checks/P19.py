"""P19 — Real roots of polynomials"""

import math
from fractions import Fraction

from hypothesis import strategies as st

from Patro.Common.Math import Root

from pbt import gen
from pbt.harness import Check, ensure, fail

check = Check(
    'P19',
    rule='Hypothesis chooses real roots (repeated ones among dyadic numbers so that the coefficients are exact, or separated decimal ones), irreducible quadratic factors '
         'and a leading coefficient, expands them exactly, and pads with null leading coefficients.  The oracle is the list of the chosen roots.  A case is non-trivial when '
         'the polynomial has at least one root and a degree of at least two.',
    assumptions=['roots of magnitude at most 100, distinct roots differ by at least 0.05', 'repeated roots have exactly represented coefficients'],
)


def expand(leading, roots, factors):
    """Exact coefficients, highest degree first"""
    poly = [Fraction(leading)]
    for r in roots:
        r = Fraction(r)
        poly = [a - r * b for a, b in zip(poly + [0], [0] + poly)]
    for p, q in factors:
        # (x - p)² + q²
        c1, c0 = -2 * Fraction(p), Fraction(p) ** 2 + Fraction(q) ** 2
        poly = [a + c1 * b + c0 * c for a, b, c in zip(poly + [0, 0], [0] + poly + [0], [0, 0] + poly)]
    return poly


@st.composite
def polynomials(draw, degrees):
    degree = draw(degrees)
    factors = []
    exact = draw(st.booleans())
    complex_pairs = draw(st.integers(0, degree // 2)) if draw(st.booleans()) else 0
    for _ in range(complex_pairs):
        factors.append((draw(st.integers(-8, 8)) / 2, draw(st.integers(1, 8)) / 2))
    count = degree - 2 * complex_pairs
    if exact:
        roots = [draw(st.integers(-8, 8)) / draw(st.sampled_from([1, 1, 2])) for _ in range(count)]
        leading = draw(st.sampled_from([1., -1., 2., .5, -4.]))
    else:
        cells = draw(st.lists(st.integers(-60, 60), min_size=count, max_size=count, unique=True))
        roots = [c / 6 + draw(st.integers(-50, 50)) / 1000 for c in cells]
        leading = draw(st.one_of(st.sampled_from([1., -1., 3., .1, -.7, 1e-3, 1e3]), st.integers(1, 50).map(float)))
    return degree, leading, roots, factors


def coefficients(case):
    degree, leading, roots, factors = case
    return [float(c) for c in expand(leading, roots, factors)]


def check_roots(got, roots, case, coefs, tolerance=1e-5):
    got = sorted(float(r) for r in (got if got is not None else []))
    expected = sorted(set(roots))
    ensure(all(math.isfinite(r) for r in got), 'roots {} of {}', got, coefs)
    for r in expected:
        ensure(any(abs(r - s) <= tolerance * max(1, abs(r)) for s in got), 'the root {} of {} is missing in {}', r, coefs, got)
    for s in got:
        ensure(any(abs(r - s) <= tolerance * max(1, abs(r)) for r in expected), '{} is not a root of {} whose roots are {}', s, coefs, expected)


def label_of(case):
    degree, leading, roots, factors = case
    if degree < 2 or not roots:
        return None
    return 'repeated' if len(set(roots)) < len(roots) else ('pairs' if factors else 'simple')


@check.facet(polynomials(st.integers(0, 2)), quick=2500)
def quadratic(case):
    coefs = coefficients(case)
    coefs = [0.] * (3 - len(coefs)) + coefs
    got = Root.quadratic_root(*coefs)
    if case[0] == 0 or (case[0] == 2 and not case[2]):
        ensure(got is None, 'no real root for {}: {}', coefs, got)
    else:
        ensure(len(got) == len(set(case[2])), 'roots {} of {}', got, coefs)
    check_roots(got, case[2], case, coefs)
    return label_of(case)


@check.facet(st.tuples(st.integers(1, 300), st.integers(-6, 6), st.sampled_from([1., -1., 3., .01]), st.booleans()), quick=600)
def scales(case):
    """Two roots of very different magnitudes: no cancellation"""
    small, exponent, leading, negative = case
    r1, r2 = small * 10. ** -6, (small + 1) * 10. ** exponent
    if negative:
        r1 = -r1
    a, b, c = (float(x) for x in expand(leading, [r1, r2], []))
    got = Root.quadratic_root(a, b, c)
    ensure(got is not None and len(got) == 2, 'roots of {}', (a, b, c))
    if abs(r2) > 100 * abs(r1):
        for r in (r1, r2):
            ensure(any(abs(s - r) <= 1e-8 * abs(r) for s in got), 'root {} of {}: {}', r, (a, b, c), got)
        return 'scales'
    return None


@check.facet(polynomials(st.sampled_from([1, 2, 3, 3, 3])), quick=150)
def cubic(case):
    coefs = coefficients(case)
    coefs = [0.] * (4 - len(coefs)) + coefs
    check_roots(Root.cubic_root(*coefs), case[2], case, coefs)
    return label_of(case)


@check.facet(polynomials(st.just(3)), quick=1500)
def closed_form(case):
    degree, leading, roots, factors = case
    if len(set(roots)) < len(roots) or any(q < .5 for p, q in factors):
        # the closed form is not accurate next to a double root
        return None
    coefs = coefficients((degree, 1., roots, factors))
    check_roots(Root.cubic_root_normalised(*coefs[1:]), roots, case, coefs, tolerance=1e-4)
    return label_of(case)


@check.facet(st.tuples(st.integers(-40, 40), st.integers(-40, 40)), quick=300)
def closed_form_repeated(case):
    """All the intermediate values are integers: the discriminant is exactly null"""
    roots = [3. * case[0], 3. * case[0], 3. * case[1]]
    coefs = coefficients((3, 1., roots, []))
    got = Root.cubic_root_normalised(*coefs[1:])
    ensure(len(got) == len(set(roots)), 'roots {} of {}', got, coefs)
    check_roots(got, roots, case, coefs, tolerance=1e-9)
    return 'double' if len(set(roots)) > 1 else 'triple' if case[0] else None


@check.facet(polynomials(st.sampled_from([1, 2, 3, 4, 5, 5, 5])), quick=80)
def fifth(case):
    coefs = coefficients(case)
    coefs = [0.] * (6 - len(coefs)) + coefs
    check_roots(Root.fifth_root(*coefs), case[2], case, coefs)
    if case[0] == 5:
        check_roots(Root.fifth_root_sympy(*coefs), case[2], case, coefs)
    elif case[0] == 4 and case[1] == 1:
        check_roots(Root.fourth_root_normalised(*coefs[2:]), case[2], case, coefs)
    return label_of(case)


_power = st.sampled_from([-24, -16, -8, -4, 0, 4, 8, 16, 24])


def verify_magnitude(case):
    """The roots don't depend on the magnitude of the coefficients, and follow the unit of the abscissa (powers of two are exact)"""
    (degree, leading, roots, factors), k, unit = case
    coefs = [float(c) * 2.**(k + unit * i) for i, c in enumerate(expand(leading, roots, factors))]
    function = {2: Root.quadratic_root, 3: Root.cubic_root, 5: Root.fifth_root}[degree]
    got = function(*coefs)
    got = sorted(float(r) / 2.**unit for r in (got if got is not None else []))
    check_roots(got, roots, None, coefs)
    return 'scaled' if roots and (k or unit) else None


def _exact(degrees):
    return polynomials(st.sampled_from(degrees)).filter(lambda case: case[1] in (1., -1., 2., .5, -4.))


@check.facet(st.tuples(_exact([2]), _power, _power), quick=1000)
def magnitudes(case):
    return verify_magnitude(case)


@check.facet(st.tuples(_exact([3]), _power, st.sampled_from([-8, -4, 0, 4, 8])), quick=120)
def cubic_magnitudes(case):
    return verify_magnitude(case)


@check.facet(st.tuples(_exact([5]), _power, st.sampled_from([-4, 0, 4])), quick=60)
def fifth_magnitudes(case):
    return verify_magnitude(case)
