"""P12 — ellipses"""

import math

import numpy as np

from hypothesis import strategies as st

from Patro.GeometryEngine.Conic import AngularDomain, Ellipse2D
from Patro.GeometryEngine.Segment import Segment2D
from Patro.GeometryEngine.Vector import Vector2D

from pbt import gen, maps, num
from pbt import scaling
from pbt.harness import Check, ensure, fail
from pbt.num import add, dist, ensure_close, ensure_point, mul, norm, polar, rotate, sub, xy

check = Check(
    'P12',
    rule='Hypothesis generates ellipses with any order of radii (0.05 to 100, aspect ratio up to 200), rotations of -360 to 360 degrees, points inside, '
         'outside, on the axes and on the curve, and end point parametrisations of arcs with both flags (radii too small included).  The oracle is the '
         'implicit equation in plain floats and a minimisation of the distance over the angle.  A case is non-trivial when the ellipse is rotated or is not a circle.',
    assumptions=['distances are to the whole ellipse', 'the chord of an arc is longer than 1e-3 times the radii'],
)

_radius = st.one_of(st.integers(1, 20).map(float), st.integers(50, 100000).map(lambda i: i / 1000))
_rotation = st.one_of(st.just(0.), st.integers(-24, 24).map(lambda i: 15. * i), st.integers(-360000, 360000).map(lambda i: i / 1000))
_ellipse = st.tuples(gen.point_tame, _radius, _radius, _rotation)
_point = st.one_of(
    st.tuples(st.just('polar'), gen.angle, st.integers(0, 3000).map(lambda i: i / 1000)),
    st.tuples(st.just('axis'), st.sampled_from([0., 90., 180., 270.]), st.integers(0, 3000).map(lambda i: i / 1000)),
    st.tuples(st.just('any'), gen.point_tame, st.none()),
    st.tuples(st.just('center'), st.none(), st.none()),
)


def V(p):
    return Vector2D(p)


def reasonable(rx, ry):
    return max(rx, ry) <= 200 * min(rx, ry)


def on_ellipse(c, rx, ry, phi, t, k=1.):
    r = math.radians(t)
    return add(c, rotate((k * rx * math.cos(r), k * ry * math.sin(r)), phi))


def level(c, rx, ry, phi, p):
    """1 on the ellipse"""
    x, y = rotate(sub(p, c), -phi)
    return math.hypot(x / rx, y / ry)


def place(ellipse, point):
    c, rx, ry, phi = ellipse
    kind, a, b = point
    if kind == 'center':
        return c
    if kind == 'any':
        return a
    return on_ellipse(c, rx, ry, phi, a, b)


def nearest_distance(c, rx, ry, phi, p):
    x, y = rotate(sub(p, c), -phi)

    def f(t):
        return np.hypot(rx * np.cos(t) - x, ry * np.sin(t) - y)
    low, high = 0., 2 * math.pi
    t = np.linspace(low, high, 721)
    candidates = np.argsort(f(t))[:4]
    best = math.inf
    step = (high - low) / 720
    for i in candidates:
        a, b = t[i] - step, t[i] + step
        for _ in range(4):
            u = np.linspace(a, b, 65)
            j = int(np.argmin(f(u)))
            w = (b - a) / 64
            a, b = u[j] - w, u[j] + w
            best = min(best, float(f(u[j])))
    return best


@check.facet(st.tuples(_ellipse, gen.angle, gen.point_tame), quick=3000)
def frame(case):
    (c, rx, ry, phi), t, p = case
    e = Ellipse2D(V(c), rx, ry, phi)
    scale = num.magnitude_of(c, (rx, ry), p)
    ensure((xy(e.center), e.radius_x, e.radius_y, e.angle) == (c, rx, ry, phi), 'centre, radii and angle')
    q = e.point_at_angle(t)
    ensure_point(q, on_ellipse(c, rx, ry, phi, t), 'point at angle {}', t, scale=scale)
    ensure_close(level(c, rx, ry, phi, xy(q)), 1, 'equation of the ellipse', scale=scale / min(rx, ry))
    f = e.point_in_ellipse_frame(V(p))
    ensure_point(f, rotate(sub(p, c), -phi), 'point in the frame of the ellipse', scale=scale)
    ensure_point(e.point_from_ellipse_frame(f), p, 'round trip of the frame', scale=scale)
    ensure_point(e.major_vector, polar(rx, phi), 'vector of the first axis', scale=scale)
    ensure_point(e.minor_vector, polar(ry, phi + 90), 'vector of the second axis', scale=scale)
    low, high = sorted((rx, ry))
    ensure_close(e.eccentricity, math.sqrt((high - low) * (high + low)) / high, 'eccentricity', atol=1e-7)

    # matrix of the quadratic form
    m = np.array(e.matrix())
    ensure(m.shape == (3, 3) and np.array_equal(m, m.T), 'the matrix must be symmetric')
    size = max(rx, ry)
    for z, expected in ((xy(q), 0), (p, (rx * ry)**2 * (level(c, rx, ry, phi, p)**2 - 1))):
        v = np.array((z[0], z[1], 1.))
        value = float(v @ m @ v)
        tolerance = 1e-11 * float(np.abs(v) @ np.abs(m) @ np.abs(v)) + 1e-9 * (rx * ry)**2
        ensure(abs(value - expected) <= tolerance * 10, 'quadratic form at {}: {} instead of {}', z, value, expected)

    copy = e.clone()
    ensure((xy(copy.center), copy.radius_x, copy.radius_y, copy.angle, copy.domain) == (c, rx, ry, phi, None), 'clone')
    copy.center = V((c[0] + 1, c[1]))
    copy.radius_x = 2 * rx
    ensure(xy(e.center) == c and e.radius_x == rx, 'a clone is independent')
    return 'rotated' if phi % 180 and rx != ry else 'axis aligned' if rx != ry else None


@check.facet(st.tuples(_ellipse, _point), quick=2500, shards=2)
def distances(case):
    ellipse, point = case
    c, rx, ry, phi = ellipse
    if not reasonable(rx, ry):
        return None
    p = place(ellipse, point)
    e = Ellipse2D(V(c), rx, ry, phi)
    scale = num.magnitude_of(c, (rx, ry), p)
    expected = nearest_distance(c, rx, ry, phi, p)
    d = e.distance_to_point(V(p))
    ensure(abs(d - expected) <= 1e-6 * scale, 'distance of {} to {}: {} instead of {}', p, ellipse, d, expected)
    d2, q = e.distance_to_point(V(p), return_point=True)
    ensure_close(d2, d, 'distance with the point')
    ensure(abs(dist(xy(q), p) - expected) <= 2e-6 * scale, 'nearest point {} of {}: at {} instead of {}', xy(q), p, dist(xy(q), p), expected)
    ensure(abs(level(c, rx, ry, phi, xy(q)) - 1) <= 1e-5 * scale / min(rx, ry), 'the nearest point is off the ellipse')
    k = level(c, rx, ry, phi, p)
    if abs(k - 1) * min(rx, ry) > 1e-6 * scale:
        ensure(bool(e.is_point_inside(V(p))) == (k < 1), '{} inside {}', p, ellipse)
    label = 'inside' if k < 1 else 'outside'
    if point[0] == 'axis':
        label = 'axis'
    return label if rx != ry else None


@check.facet(st.tuples(_ellipse, gen.angle, st.integers(0, 3000).map(lambda i: i / 1000), st.tuples(gen.scalar, gen.nonzero_scalar)), quick=2500)
def lines(case):
    """Intersections with the line through the ends of a segment, built in the unit circle"""
    (c, rx, ry, phi), angle, offset, (s, t) = case
    if not reasonable(rx, ry) or abs(offset - 1) < 1e-2 or abs(t) < .1:
        return None
    u = polar(1, angle)
    foot = mul((-u[1], u[0]), offset)

    def place(v):
        return add(c, rotate((rx * v[0], ry * v[1]), phi))
    p0, p1 = place(add(foot, mul(u, s))), place(add(foot, mul(u, s + t)))
    expected = []
    if offset < 1:
        h = math.sqrt(1 - offset**2)
        expected = sorted([place(add(foot, mul(u, -h))), place(add(foot, mul(u, h)))])
    scale = num.magnitude_of(c, (rx, ry), p0, p1)
    if dist(p0, p1) < 1e-3 * scale:
        return None
    points = Ellipse2D(V(c), rx, ry, phi).intersect_segment(Segment2D(V(p0), V(p1)))
    points = sorted(xy(x) for x in points or ())
    ensure(len(points) == len(expected), 'line {} {}: {} intersections, expected {}', p0, p1, points, expected)
    if points:
        tolerance = 1e-5 * scale * max(rx, ry) / min(rx, ry)
        ensure(any(all(dist(a, b) <= tolerance for a, b in zip(points, z)) for z in (expected, expected[::-1])),
               'line {} {}: intersections {}, expected {}', p0, p1, points, expected)
    return 'secant' if points else None


@check.facet(st.tuples(gen.point_tame, _radius, _radius, _rotation, gen.angle, gen.angle, st.booleans(), st.booleans(),
                       st.sampled_from(['on', 'on', 'small', 'half', 'null']), st.integers(10, 990).map(lambda i: i / 1000)), quick=4000, shards=2)
def arcs(case):
    """Arc given by its ends, its radii and the flags"""
    c, rx, ry, phi, t1, t2, large, sweep, kind, shrink = case
    if not reasonable(rx, ry):
        return None
    if kind in ('small', 'half'):
        t2 = t1 + 180
    gap = (t2 - t1) % 360
    if min(gap, 360 - gap) < .5 or (kind == 'on' and abs(gap - 180) < .5):
        return None
    p1, p2 = on_ellipse(c, rx, ry, phi, t1), on_ellipse(c, rx, ry, phi, t2)
    sx, sy = rx, ry
    if kind in ('small', 'half'):
        if kind == 'small':
            sx, sy = rx * shrink, ry * shrink
        large_expected = None
    elif kind == 'null':
        s = Ellipse2D.svg_arc(V(p1), V(p2), 0 if large else rx, 0 if not large or sweep else ry, phi, large, sweep)
        ensure(isinstance(s, Segment2D), 'an arc of null radius is a segment')
        ensure_point(s.start_point, p1, 'start')
        ensure_point(s.end_point, p2, 'stop')
        return 'null radius'
    negative = -1 if shrink > .8 else 1    # the sign of the radii is dropped
    e = Ellipse2D.svg_arc(V(p1), V(p2), negative * sx, sy, phi, large, sweep)
    ensure(isinstance(e, Ellipse2D), 'an arc of ellipse is expected')
    scale = num.magnitude_of(c, (rx, ry), p1, p2)
    chord = dist(p1, p2)
    # the centre is ill conditioned near the half turn
    tolerance = 1e-5 * scale * max(1, scale / chord) * max(rx, ry) / min(rx, ry)
    ensure(dist(xy(e.start_point), p1) <= tolerance, 'the arc starts at {} instead of {}', xy(e.start_point), p1)
    ensure(dist(xy(e.stop_point), p2) <= tolerance, 'the arc stops at {} instead of {}', xy(e.stop_point), p2)
    ensure(num.angle_difference(e.angle, phi) < 1e-6, 'rotation of the arc')
    span = e.domain.stop - e.domain.start
    ensure(span > 0 if sweep else span < 0, 'sweep {}: the domain spans {}', sweep, span)
    ensure(abs(span) <= 360, 'the domain spans {}', span)
    if kind == 'on':
        ensure_close(e.radius_x, rx, 'radius', rtol=1e-6)
        ensure_close(e.radius_y, ry, 'radius', rtol=1e-6)
        ensure((abs(span) > 180) == large, 'large arc {}: the domain spans {}', large, span)
        expected_span = max(gap, 360 - gap) if large else min(gap, 360 - gap)
        ensure(abs(abs(span) - expected_span) < 1e-2, 'the arc spans {} instead of {}', span, expected_span)
        if (sweep and abs(gap - span) < 1e-2) or (not sweep and abs(360 - gap + span) < 1e-2):
            ensure(dist(xy(e.center), c) <= tolerance, 'centre of the arc')
        else:
            # the other centre is symmetric about the middle of the chord
            ensure(dist(xy(e.center), sub(add(p1, p2), c)) <= tolerance, 'centre of the other arc')
        return ('large ' if large else 'small ') + ('counterclockwise' if sweep else 'clockwise')
    # half turn: the radii are just enough
    ensure_close(e.radius_x, rx, 'enlarged radius', rtol=1e-6)
    ensure_close(e.radius_y, ry, 'enlarged radius', rtol=1e-6)
    ensure(abs(abs(span) - 180) < .1, 'half turn: the domain spans {}', span)
    ensure(dist(xy(e.center), c) <= 1e-3 * scale * max(rx, ry) / min(rx, ry), 'centre of a half turn')
    return 'radii too small' if kind == 'small' else 'half turn'


@check.facet(st.tuples(_ellipse, st.one_of(st.none(), st.tuples(gen.angle, gen.angle)), gen.inner_parameter), quick=2000)
def bezier(case):
    (c, rx, ry, phi), domain, t = case
    if not reasonable(rx, ry):
        return None
    if domain is not None:
        start, stop = domain
        if abs(start - stop) < 1e-2 or abs(stop - start) > 720:
            return None
        e = Ellipse2D(V(c), rx, ry, phi, AngularDomain(start, stop))
    else:
        start, stop = 0., 360.
        e = Ellipse2D(V(c), rx, ry, phi)
    curves = e.to_bezier()
    scale = num.magnitude_of(c, (rx, ry))
    ensure(curves, 'no curve')
    at = on_ellipse(c, rx, ry, phi, start)
    ensure_point(curves[0].start_point, at, 'first point', scale=scale)
    ensure_point(curves[-1].end_point, on_ellipse(c, rx, ry, phi, stop), 'last point', scale=scale)
    if domain is not None:
        ensure_point(e.start_point, at, 'start point', scale=scale)
        ensure_point(e.stop_point, on_ellipse(c, rx, ry, phi, stop), 'stop point', scale=scale)
    total = 0.
    previous = None
    for curve in curves:
        P = [xy(p) for p in curve.points]
        ensure(len(P) == 4, 'cubic curves are expected')
        at_start = at if previous is None else previous
        ensure(num.pclose(P[0], at_start, scale), 'the curves do not join')
        previous = P[3]
        last = None
        for i in range(0, 13):
            u = t if i == 12 else i / 11
            q = add(add(mul(P[0], (1 - u)**3), mul(P[1], 3 * (1 - u)**2 * u)), add(mul(P[2], 3 * (1 - u) * u**2), mul(P[3], u**3)))
            k = level(c, rx, ry, phi, q)
            ensure(abs(k - 1) < 5e-4 + 1e-9 * scale / min(rx, ry), 'the curve is off the ellipse: {}', k)
            if i < 12:
                x, y = rotate(sub(q, c), -phi)
                a = math.degrees(math.atan2(y / ry, x / rx))
                if last is not None:
                    total += (a - last + 180) % 360 - 180
                last = a
    ensure(abs(total - (stop - start)) < 1e-3 + 1e-6 * scale / min(rx, ry), 'the curves span {} instead of {}', total, stop - start)
    return 'clockwise' if stop < start else ('whole' if domain is None else 'arc')


@check.facet(st.tuples(_ellipse, st.one_of(st.none(), st.tuples(gen.angle, gen.angle)), st.lists(st.tuples(st.booleans(), st.one_of(maps.similarity, maps.shear)), min_size=1, max_size=4)), quick=1500)
def transforms(case):
    """An affine map sends an ellipse or an arc of ellipse, point by point, onto another one"""
    (c, rx, ry, phi), domain, history = case
    if not reasonable(rx, ry):
        return None
    start, stop = domain or (0, 360)
    fractions = (0, .15, .4, .75, 1)
    points = [on_ellipse(c, rx, ry, phi, start + f * (stop - start)) for f in fractions]
    ellipse = Ellipse2D(V(c), rx, ry, phi, domain and AngularDomain(start, stop))
    extent = max(rx, ry)
    axes = True
    for copy, m in history:
        previous, state = ellipse, repr(ellipse) + repr(ellipse.domain)
        if copy:
            ellipse = ellipse.clone()
        angle = ellipse.angle
        ellipse.apply_transformation(maps.build(m))
        if copy:
            ensure(repr(previous) + repr(previous.domain) == state, 'the transformation of a clone changed the ellipse')
        c = maps.image(m, c)
        points = [maps.image(m, p) for p in points]
        extent = max([extent] + [dist(p, c) for p in points])
        scale = num.magnitude_of(c, (extent, extent))
        ensure_point(ellipse.center, c, 'centre of the image by {}', m, scale=scale)
        a, b, psi = ellipse.radius_x, ellipse.radius_y, ellipse.angle
        ensure(a > 0 and b > 0, 'radii {} {}', a, b)
        if domain is None:
            ensure(ellipse.domain is None, 'an ellipse became an arc')
        else:
            d = ellipse.domain
            ensure(abs(abs(d.stop - d.start) - abs(stop - start)) < 1e-7, 'extent of the arc {} instead of {}', d, domain)
        for f, p in zip(fractions, points):
            ensure(abs(level(c, a, b, psi, p) - 1) < 1e-6 * scale / min(a, b), 'the image by {} of a point is not on the ellipse {}', m, ellipse)
            if domain is not None:
                ensure_point(ellipse.point_at_angle(d.start + f * (d.stop - d.start)), p, 'image of a point by {}', m, scale=scale, rtol=1e-6)
        axes = axes and maps.is_similarity(m)
        if axes and abs(rx - ry) > 1e-3 * max(rx, ry):
            # the radii keep their role
            ensure(abs(a / b - rx / ry) < 1e-6 * rx / ry, 'radii {} {} instead of the ratio of {} {}', a, b, rx, ry)
    return 'ellipse' if domain is None else 'arc'


@check.facet(st.tuples(gen.points(4, 4, st.one_of(gen.point_tame, gen.point_lattice)), gen.positive, gen.positive, gen.angle, st.booleans(), st.booleans(), scaling.exponent), quick=1000)
def scales(case):
    points, radius_x, radius_y, angle, large, sweep, k = case

    def evaluate(points, rx, ry):
        a, p, q, r = [Vector2D(x) for x in points]
        ellipse = Ellipse2D(a, rx, ry, angle)
        return dict(
            eccentricity=(0, lambda: ellipse.eccentricity), point=(1, lambda: ellipse.point_at_angle(angle)),
            distance=(1, lambda: ellipse.distance_to_point(p)), nearest=(1, lambda: ellipse.distance_to_point(p, return_point=True)),
            inside=(0, lambda: bool(ellipse.is_point_inside(p))),
            segment=(1, lambda: ellipse.intersect_segment(Segment2D(p, q))),
            bezier=(1, lambda: [list(curve.points) for curve in ellipse.to_bezier()]),
        )

    def evaluate_arc(points, rx, ry):
        p, q = [Vector2D(x) for x in points[1:3]]
        arc = Ellipse2D.svg_arc(p, q, rx, ry, angle, large, sweep)
        return dict(center=(1, lambda: arc.center), radii=(1, lambda: [arc.radius_x, arc.radius_y]))

    scaling.verify(evaluate, [points, radius_x, radius_y], k)
    if points[1] != points[2] and .05 <= radius_x / radius_y <= 20:
        # the centre is a square root of a difference
        scaling.verify(evaluate_arc, [points, radius_x, radius_y], k, rtol=1e-4)
    return 'scaled'
