"""Shared Hypothesis strategies: everything generated here is plain data"""

import math

from hypothesis import strategies as st

# Exactly representable, small: favours coincidences (equal, collinear, orthogonal, ...)
small_int = st.integers(-12, 12).map(float)
dyadic = st.integers(-64 * 64, 64 * 64).map(lambda i: i / 64)
decimal = st.integers(-10**6, 10**6).map(lambda i: i / 1000)
_wide = st.floats(-1e4, 1e4, allow_nan=False, allow_infinity=False, allow_subnormal=False).map(
    lambda x: 0.0 if abs(x) < 1e-3 else x)

coordinate = st.one_of(small_int, dyadic, decimal, _wide)
coordinate_tame = st.one_of(small_int, dyadic, decimal)

point = st.tuples(coordinate, coordinate)
point_tame = st.tuples(coordinate_tame, coordinate_tame)
point_int = st.tuples(small_int, small_int)
point_lattice = st.tuples(st.integers(-5, 5).map(float), st.integers(-5, 5).map(float))


def norm(p):
    return math.hypot(p[0], p[1])


def nonzero_point(base=point_tame, minimum=1e-2):
    """Vector whose magnitude is at least *minimum*, by construction"""
    def repair(p):
        x, y = p
        if math.hypot(x, y) >= minimum:
            return (x, y)
        return (1.0 + abs(x), y)
    return base.map(repair)


def points(minimum, maximum, base=point_tame):
    return st.lists(base, min_size=minimum, max_size=maximum)


angle = st.one_of(
    st.integers(-24, 24).map(lambda i: 15.0 * i),
    st.integers(-360, 360).map(float),
    st.floats(-720, 720, allow_nan=False, allow_subnormal=False).map(lambda x: round(x, 6)),
)
angle_360 = st.one_of(
    st.integers(0, 23).map(lambda i: 15.0 * i),
    st.integers(0, 359).map(float),
    st.integers(0, 359999).map(lambda i: i / 1000),
)

positive = st.one_of(
    st.integers(1, 30).map(float),
    st.integers(1, 100000).map(lambda i: i / 1000),
)
nonzero_scalar = st.one_of(
    st.integers(-20, 20).filter(bool).map(float),
    st.integers(1, 50000).map(lambda i: i / 1000),
    st.integers(1, 50000).map(lambda i: -i / 1000),
)
scalar = st.one_of(st.just(0.0), nonzero_scalar)

parameter = st.one_of(
    st.sampled_from([0.0, 1.0, 0.5, 0.25, 0.75, 1e-5, 1 - 1e-5]),
    st.integers(0, 1000).map(lambda i: i / 1000),
)
inner_parameter = st.integers(1, 999).map(lambda i: i / 1000)
