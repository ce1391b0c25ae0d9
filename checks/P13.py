"""P13 — Bézier curves: evaluation, splitting, elevation, tangents"""

import math

from hypothesis import strategies as st

from Patro.GeometryEngine.Bezier import CubicBezier2D, QuadraticBezier2D
from Patro.GeometryEngine.Vector import Vector2D

from pbt import gen, num, shapes
from pbt.harness import Check, ensure, fail
from pbt.num import cross, dot, ensure_point, lerp, mul, norm, sub, xy

check = Check(
    'P13',
    rule='Hypothesis generates the control points of quadratic and cubic curves (repeated, collinear and lattice points included) and parameters with '
         'the ends.  The oracle is de Casteljau on pairs of floats and the convex hull of the control points.  A case is non-trivial when the control '
         'points are not all equal and the parameter is strictly inside the unit interval.',
    assumptions=['coordinates up to 1e4'],
)


def V(p):
    return Vector2D(p)


def make(points):
    return (QuadraticBezier2D if len(points) == 3 else CubicBezier2D)(*map(V, points))


def casteljau(points, t):
    points = list(points)
    while len(points) > 1:
        points = [lerp(p, q, t) for p, q in zip(points, points[1:])]
    return points[0]


def derivative(points, t):
    n = len(points) - 1
    return mul(casteljau([sub(q, p) for p, q in zip(points, points[1:])], t), n)


@st.composite
def control_points(draw, minimum=3, maximum=4):
    points = draw(gen.points(minimum, maximum, st.one_of(gen.point_tame, gen.point_lattice)))
    kind = draw(st.sampled_from(['any', 'any', 'any', 'collinear', 'repeated', 'closed']))
    if kind == 'collinear':
        a, d = points[0], draw(gen.nonzero_point(gen.point_lattice))
        points = [(a[0] + k * d[0], a[1] + k * d[1]) for k in draw(st.lists(st.integers(-5, 5), min_size=len(points), max_size=len(points)))]
    elif kind == 'repeated':
        i = draw(st.integers(0, len(points) - 2))
        points[i + 1] = points[i]
    elif kind == 'closed':
        points[-1] = points[0]
    return points


def controls(curve):
    return [xy(p) for p in curve.points]


_parameter = gen.parameter


def label_of(points, t):
    if len(set(points)) == 1 or not 0 < t < 1:
        return None
    return 'quadratic' if len(points) == 3 else 'cubic'


@check.facet(st.tuples(control_points(), _parameter), quick=3000)
def evaluation(case):
    points, t = case
    curve = make(points)
    scale = num.magnitude_of(*points)
    p = curve.point_at_t(t)
    ensure_point(p, casteljau(points, t), 'point at {} of {}', t, points, scale=scale)
    ensure_point(curve.point_at_t(0), points[0], 'first point', scale=scale)
    ensure_point(curve.point_at_t(1), points[-1], 'last point', scale=scale)
    ensure(xy(curve.start_point) == points[0] and xy(curve.end_point) == points[-1], 'ends of the curve')
    ensure(controls(curve) == points, 'control points {} of {}', controls(curve), points)

    # in the convex hull of the control points
    hull = shapes.hull(points)
    q = xy(p)
    if len(hull) >= 3:
        for a, b in zip(hull, hull[1:] + hull[:1]):
            ensure(cross(sub(b, a), sub(q, a)) >= -1e-8 * scale * max(scale, norm(sub(b, a))), 'the point at {} is out of the convex hull of {}', t, points)

    # tangents are parallel to the derivative
    d = derivative(points, t)
    tangent = xy(curve.tangent_at(t))
    tolerance = 1e-8 * scale
    ensure(abs(cross(tangent, d)) <= tolerance * max(norm(d), scale) and dot(tangent, d) >= -tolerance * scale, 'tangent {} at {} of {}, derivative {}',
           tangent, t, points, d)
    ensure(norm(tangent) >= norm(d) / 10 - tolerance, 'null tangent at {} of {}, derivative {}', t, points, d)
    ends = []
    if points[0] != points[1]:
        ends.append((curve.tangent0, derivative(points, 0)))
    if points[-1] != points[-2]:
        ends.append((curve.tangent1, derivative(points, 1)))
    for v, d in ends:
        u = xy(v)
        ensure(abs(norm(u) - 1) < 1e-9 and num.dist(u, mul(d, 1 / norm(d))) < 1e-9, 'tangent {} at an end of {}, derivative {}', u, points, d)
    ensure(controls(curve) == points, 'the curve changed')
    if len(points) == 3:
        for normal, p, q in ((lambda: curve.normal0, points[0], points[1]), (lambda: curve.normal1, points[1], points[2])):
            if p != q:
                d = sub(q, p)
                n = xy(normal())
                ensure(num.dist(n, (-d[1] / norm(d), d[0] / norm(d))) < 1e-9, 'normal at an end')
    return label_of(points, t)


@check.facet(st.tuples(control_points(), _parameter, _parameter, _parameter), quick=3000)
def splits(case):
    points, t1, t2, s = case
    curve = make(points)
    scale = num.magnitude_of(*points)
    n = len(points)
    left, right = curve.split_at_t(t1)
    for part, f in ((left, lambda u: u * t1), (right, lambda u: t1 + u * (1 - t1))):
        if part is None:
            # no part of null extent
            ensure(t1 == (0 if part is left else 1), 'a part is missing at {}', t1)
            continue
        ensure(isinstance(part, type(curve)) and len(controls(part)) == n, 'the part must have the same degree')
        for u in (0., s, 1.):
            ensure_point(part.point_at_t(u), casteljau(points, f(u)), 'part of {} split at {}', points, t1, scale=scale)
    if t1 == t2:
        ensure_point(curve.split_at_two_t(t1, t2), casteljau(points, t1), 'part of null extent', scale=scale)
    else:
        low, high = min(t1, t2), max(t1, t2)
        part = curve.split_at_two_t(t1, t2)
        ensure(isinstance(part, type(curve)), 'the part must have the same degree')
        for u in (0., s, 1., .5):
            ensure_point(part.point_at_t(u), casteljau(points, low + u * (high - low)), 'part of {} between {} and {}', points, t1, t2, scale=scale)
    ensure(controls(curve) == points, 'the curve changed')
    # again on the same curve: the result does not depend on the history
    again = curve.split_at_t(t1)
    for a, b in zip((left, right), again):
        ensure((a is None and b is None) or controls(a) == controls(b), 'the second split differs')
    return label_of(points, t1) and label_of(points, t2) and label_of(points, s)


@check.facet(st.tuples(control_points(), _parameter), quick=2000)
def elevation_and_reversal(case):
    points, t = case
    curve = make(points)
    scale = num.magnitude_of(*points)
    if len(points) == 3:
        cubic = curve.to_cubic()
        ensure(isinstance(cubic, CubicBezier2D), 'the elevated curve must be cubic')
        for u in (0., t, .5, 1.):
            ensure_point(cubic.point_at_t(u), casteljau(points, u), 'elevated curve of {} at {}', points, u, scale=scale)
        back = cubic.mid_point_quadratic_approximation()
        for p, q in zip(controls(back), points):
            ensure(num.pclose(p, q, scale), 'the quadratic approximation of an elevated curve is itself')
    else:
        q = curve.mid_point_quadratic_approximation()
        ensure(isinstance(q, QuadraticBezier2D), 'quadratic approximation')
        for u in (0., .5, 1.):
            ensure_point(q.point_at_t(u), casteljau(points, u), 'quadratic approximation of {} at {}', points, u, scale=scale)
        # between the curve and its quadratic approximation
        d = norm((points[3][0] - 3 * points[2][0] + 3 * points[1][0] - points[0][0], points[3][1] - 3 * points[2][1] + 3 * points[1][1] - points[0][1]))
        ensure(num.dist(xy(q.point_at_t(t)), casteljau(points, t)) <= d / 20 + 1e-9 * scale, 'error of the quadratic approximation')
    ensure(curve.is_reversible, 'a curve is reversible')
    reverse = curve.reverse()
    ensure(isinstance(reverse, type(curve)), 'class of the reversed curve')
    ensure_point(reverse.point_at_t(t), casteljau(points, 1 - t), 'reversed curve', scale=scale)
    ensure(controls(reverse.reverse()) == points, 'reversed twice')
    copy = curve.clone()
    ensure(controls(copy) == points and type(copy) is type(curve), 'clone')
    ensure(controls(curve) == points, 'the curve changed')
    return label_of(points, t)
