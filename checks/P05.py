"""P05 — lines"""

import math

from hypothesis import strategies as st
from IntervalArithmetic import Interval2D

from Patro.GeometryEngine.Line import Line2D
from Patro.GeometryEngine.Vector import Vector2D

from pbt import gen, num
from pbt import scaling
from pbt.harness import Check, ensure, fail
from pbt.num import add, cross, dot, ensure_close, ensure_point, mul, norm, sub, xy

check = Check(
    'P05',
    rule='Hypothesis generates lines (direction of magnitude 1e-8 to 1e9, any quadrant, axis-aligned included), points and offsets; the oracle is '
         'plain arithmetic on pairs of floats.  A case is non-trivial when the direction is not a unit vector, or lines are parallel, or the point is off the line.',
    assumptions=['two lines are taken as parallel, or as clearly not parallel (sine above 1e-3)', 'coordinates up to 1e3', 'magnitudes of the directions from 1e-8 to 1e9'],
)

_direction = st.one_of(
    gen.nonzero_point(gen.point_tame),
    gen.nonzero_point(gen.point_lattice),
    st.sampled_from([(1., 0.), (0., 1.), (-1., 0.), (0., -1.), (0., 5.), (-7., 0.), (3., 4.), (.01, .02), (1000., -1.)]),
)
_magnitude = st.sampled_from([1., 1., 1., 1e-6, 1e-4, .01, 100., 1e6])
_line = st.tuples(gen.point_tame, _direction)


def L(line):
    return Line2D(Vector2D(line[0]), Vector2D(line[1]))


def V(p):
    return Vector2D(p)


def distance_to_line(line, p):
    a, v = line
    return abs(cross(v, sub(p, a))) / norm(v)


@check.facet(st.tuples(_line, gen.point_tame, gen.scalar), quick=3000)
def projections(case):
    line, p, s = case
    a, v = line
    l = L(line)
    n = norm(v)
    scale = num.magnitude_of(a, v, p) * max(1, abs(s))
    delta = sub(p, a)
    ensure_point(l.interpolate(s), add(a, mul(v, s)), 'point at abscissa {}', s, scale=scale)
    ensure_point(l.point_at_s(s), add(a, mul(v, s)), 'point at abscissa {}', s, scale=scale)
    ensure_point(l.point_at_t(s), add(a, mul(v, s)), 'point at abscissa {}', s, scale=scale)
    ensure_point(l.vn, mul(v, 1 / n), 'unit vector')

    t = dot(delta, v) / n**2
    foot = add(a, mul(v, t))
    ensure_close(l.projected_abscissa(V(p)), t, 'abscissa of the projection', scale=scale / n)
    q = xy(l.projected_point(V(p)))
    ensure(num.pclose(q, foot, scale * 10), 'projection of {} on {}: {} instead of {}', p, line, q, foot)
    ensure(abs(dot(sub(p, q), v)) <= 1e-8 * scale * n + 1e-9, 'the residual of the projection is not orthogonal to the line')
    ensure(distance_to_line(line, q) <= 1e-8 * scale, 'the projection is off the line')

    d = cross(v, delta) / n
    ensure_close(l.distance_to_line(V(p)), d, 'signed distance', scale=scale)
    d2, s2 = l.distance_and_abscissa_to_line(V(p))
    ensure_close(d2, d, 'signed distance', scale=scale)
    ensure_close(s2, dot(delta, v) / n, 'length along the line', scale=scale)
    # decomposition of the offset
    u = mul(v, 1 / n)
    ensure(num.pclose(add(mul(u, float(s2)), mul((-u[1], u[0]), float(d2))), delta, scale), 'distance and abscissa do not decompose the offset')

    # distances along the line
    ensure_point(l.point_at_distance(s), add(a, mul(u, s)), 'point at a distance', scale=scale)
    ensure_point(l.point_at_distance(s, V(p)), add(p, mul(u, s)), 'point at a distance of a point', scale=scale)
    ensure_close(l.compute_distance_between_abscissae(s, 2.), abs(s - 2) * n, 'distance between abscissae', scale=scale * n)
    abscissae = [s, 1., -3., 0.]
    ensure([num.close(x, abs(b - c) * n, scale * n) for x, b, c in zip(l.compute_distance(abscissae), abscissae, abscissae[1:])] == [True] * 3,
           'distances between abscissae')
    # the line is unchanged
    ensure(xy(l.p) == a and xy(l.v) == v, 'the line changed')

    # a point of the line at a given distance of p, when it exists
    distance = abs(d) + abs(s) + .5
    r = xy(l.triangle_projected_point(V(p), distance))
    r2 = xy(l.triangle_projected_point(V(p), distance, reverse=True))
    for x in (r, r2):
        ensure(distance_to_line(line, x) <= 1e-7 * max(scale, distance), 'the triangle projection is off the line')
        ensure_close(num.dist(x, p), distance, 'distance of the triangle projection', scale=max(scale, distance), rtol=1e-8)
    ensure(dot(sub(r, r2), v) > 0, 'reverse must give the other solution')
    if abs(d) > 1e-3:
        try:
            l.triangle_projected_point(V(p), abs(d) * .99)
        except ValueError:
            pass
        else:
            fail('a point of the line is found nearer than the line')
    return None if abs(n - 1) < 1e-9 else ('off the line' if abs(d) > 1e-6 else 'on the line')


@check.facet(st.tuples(_line, _line, gen.nonzero_scalar, st.booleans(), _magnitude, _magnitude), quick=3500)
def intersections(case):
    line1, line2, factor, parallel, magnitude1, magnitude2 = case
    if parallel:
        line2 = (line2[0], mul(line1[1], 1. if abs(factor) < 1e-2 else float(round(factor) or 1)))
    line1 = (line1[0], mul(line1[1], magnitude1))
    line2 = (line2[0], mul(line2[1], magnitude2))
    (a, v), (b, w) = line1, line2
    l1, l2 = L(line1), L(line2)
    c = cross(v, w)
    sine = c / (norm(v) * norm(w))
    scale = num.magnitude_of(a, b)
    if parallel or c == 0:
        if abs(sine) > 1e-12:   # rounding of the multiplication
            return None
        ensure(bool(l1.is_parallel(l2)), 'parallel lines {} {} are not reported', line1, line2)
        ensure(l1.intersection(l2) is None, 'parallel lines intersect')
        ensure(l1.intersection_abscissae(l2) == (None, None), 'parallel lines intersect')
        return 'parallel'
    if abs(sine) < 1e-3:
        return None
    ensure(not l1.is_parallel(l2), 'lines {} {} are reported as parallel', line1, line2)
    test, value = l1.is_parallel(l2, return_cross=True)
    ensure(not test and num.close(value, c, norm(v) * norm(w)), 'cross product')
    cosine = abs(dot(v, w)) / (norm(v) * norm(w))
    ensure(bool(l1.is_orthogonal(l2)) == (cosine < 1e-12) or 1e-12 < cosine < 1e-6, 'is_orthogonal of {} and {}', v, w)
    s1, s2 = l1.intersection_abscissae(l2)
    delta = sub(b, a)
    e1, e2 = cross(delta, w) / c, cross(delta, v) / c
    tolerance = scale / abs(c * sine)
    ensure_close(s1, e1, 'abscissa on the first line', scale=tolerance * norm(w))
    ensure_close(s2, e2, 'abscissa on the second line', scale=tolerance * norm(v))
    p = l1.intersection(l2)
    q = l2.intersection(l1)
    scale = scale / sine**2
    ensure_point(p, add(a, mul(v, e1)), 'intersection', scale=scale)
    ensure_point(q, xy(p), 'the intersection is not symmetric', scale=scale)
    ensure(distance_to_line(line1, xy(p)) <= 1e-8 * scale and distance_to_line(line2, xy(p)) <= 1e-8 * scale, 'the intersection is off a line')
    ensure((xy(l1.p), xy(l1.v), xy(l2.p), xy(l2.v)) == (a, v, b, w), 'a line changed')
    return 'orthogonal' if not dot(v, w) else 'secant'


@check.facet(st.tuples(_line, gen.point_tame, gen.scalar), quick=1500)
def derived_lines(case):
    line, p, s = case
    a, v = line
    l = L(line)
    n = norm(v)
    scale = num.magnitude_of(a, v, p) * max(1, abs(s))
    normal = (-v[1], v[0])

    m = l.parallel_line_at(V(p))
    ensure_point(m.p, p, 'parallel line passes by the point')
    ensure(abs(cross(xy(m.v), v)) <= 1e-9 * n * norm(xy(m.v)) and dot(xy(m.v), v) > 0, 'direction of the parallel line')

    m = l.shifted_parallel_line(s)
    ensure_close(l.distance_to_line(m.p), s, 'signed offset of the shifted line', scale=scale)
    ensure_close(cross(v, sub(xy(m.p), a)) / n, s, 'signed offset of the shifted line', scale=scale)
    ensure(abs(cross(xy(m.v), v)) <= 1e-9 * n * norm(xy(m.v)) and dot(xy(m.v), v) > 0, 'direction of the shifted line')

    for m, q in ((l.orthogonal_line_at(V(p)), p), (l.orthogonal_line_at_abscissa(s), add(a, mul(v, s)))):
        ensure_point(m.p, q, 'orthogonal line passes by the point', scale=scale)
        ensure(abs(dot(xy(m.v), v)) <= 1e-9 * n * norm(xy(m.v)), 'direction of the orthogonal line')
        ensure(cross(v, xy(m.v)) > 0, 'the orthogonal line is turned counter-clockwise')
        ensure(bool(m.is_orthogonal(l)) or n > 1e3, 'is_orthogonal')
    ensure(xy(l.p) == a and xy(l.v) == v, 'the line changed')

    if abs(v[0]) > 1e-3:
        y = l.get_y_from_x(p[0])
        ensure_close(y, a[1] + (p[0] - a[0]) * v[1] / v[0], 'ordinate', scale=scale * max(1, abs(v[1] / v[0])))
    if abs(v[1]) > 1e-3:
        x = l.get_x_from_y(p[1])
        ensure_close(x, a[0] + (p[1] - a[1]) * v[0] / v[1], 'abscissa', scale=scale * max(1, abs(v[0] / v[1])))
    ensure(l.is_infinite and l.bounding_box is None and not l.is_closed, 'a line is infinite')
    return None if abs(n - 1) < 1e-9 and not s else 'generic'


@check.facet(st.tuples(_line, gen.point_tame, gen.positive, gen.positive), quick=800)
def boxes(case):
    """The line crosses two opposite sides, or their prolongation, at the reported points"""
    line, corner, width, height = case
    a, v = line
    l = L(line)
    left, bottom = corner
    right, top = left + width, bottom + height
    p, q = map(xy, l.get_x_y_from_bounding_box(Interval2D((left, right), (bottom, top))))
    scale = num.magnitude_of(a, v, corner, (right, top)) * 1e3
    ensure(distance_to_line(line, p) <= 1e-9 * scale and distance_to_line(line, q) <= 1e-9 * scale, 'a point is off the line')
    horizontal = abs(p[0] - left) < 1e-9 * scale and abs(q[0] - right) < 1e-9 * scale
    vertical = abs(p[1] - bottom) < 1e-9 * scale and abs(q[1] - top) < 1e-9 * scale
    ensure(horizontal or vertical, 'points {} and {} are not on opposite sides of {}', p, q, (left, bottom, right, top))
    steep = abs(v[1]) * width - abs(v[0]) * height
    if abs(steep) > 1e-6 * scale:
        ensure(vertical if steep > 0 else horizontal, 'the sides are the ones the line is facing')
    # a line that crosses the box through opposite sides is clipped
    return 'steep' if steep > 0 else 'flat'


@check.facet(st.tuples(gen.point_tame, gen.point_tame), quick=500)
def two_points(case):
    p, q = case
    if num.dist(p, q) < 1e-2:
        return None
    l = Line2D.from_two_points(V(p), V(q))
    scale = num.magnitude_of(p, q)
    ensure_point(l.interpolate(0), p, 'first point', scale=scale)
    ensure_point(l.interpolate(1), q, 'second point', scale=scale)
    ensure_close(l.distance_to_line(V(q)), 0, 'distance of a point of the line', scale=scale)
    ensure_close(l.projected_abscissa(V(q)), 1, 'abscissa of the second point', scale=scale)
    ensure_close(l.distance_to_line(V(num.rotate(q, 90, p))), num.dist(p, q), 'left is positive', scale=scale)
    return 'two points'


@check.facet(st.tuples(gen.points(3, 3, st.one_of(gen.point_tame, gen.point_lattice)), gen.nonzero_point(), gen.nonzero_point(), gen.scalar, scaling.exponent), quick=1200)
def scales(case):
    points, v, w, s, k = case

    def evaluate(points, v, w):
        a, b, p = [V(x) for x in points]
        l, m = Line2D(a, V(v)), Line2D(b, V(w))
        return dict(
            point=(1, lambda: l.interpolate(s)), y=(1, lambda: l.get_y_from_x(p.x)), x=(1, lambda: l.get_x_from_y(p.y)),
            is_parallel=(0, lambda: bool(l.is_parallel(m))), is_orthogonal=(0, lambda: bool(l.is_orthogonal(m))),
            abscissa=(0, lambda: l.projected_abscissa(p)), projection=(1, lambda: l.projected_point(p)),
            distance=(1, lambda: l.distance_to_line(p)), both=(1, lambda: list(l.distance_and_abscissa_to_line(p))),
            at_distance=(1, lambda: l.point_at_distance(v[0])),
            orthogonal=(1, lambda: l.orthogonal_line_at_abscissa(s).p), shifted=(1, lambda: l.shifted_parallel_line(v[1]).p),
        )

    scaling.verify(evaluate, [points, v, w], k)
    return 'scaled'
