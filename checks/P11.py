"""P11 — circles and arcs"""

import math

from hypothesis import strategies as st

from Patro.GeometryEngine.Conic import AngularDomain, Circle2D
from Patro.GeometryEngine.Segment import Segment2D
from Patro.GeometryEngine.Vector import Vector2D

from pbt import gen, maps, num
from pbt import scaling
from pbt.harness import Check, ensure, fail
from pbt.num import add, dist, dot, ensure_close, ensure_point, mul, norm, polar, sub, xy

check = Check(
    'P11',
    rule='Hypothesis generates circles (radius 1e-2 to 100), angular domains of either order with ends between -360 and 720 degrees, lines and circles '
         'built from a wanted configuration (secant, tangent, disjoint, concentric).  The oracle is trigonometry on plain floats; the distance to an arc is '
         'compared with its exact nearest point.  A case is non-trivial when the arc is not a whole circle, or when there are intersections.',
    assumptions=['circular arcs run counter-clockwise from the start angle to the stop angle, modulo 360',
                 'lines and circles are either exactly tangent on a lattice, or clearly secant or disjoint',
                 'angles closer than 1e-6 degree to an end of an arc are not used to check membership'],
)

_radius = st.one_of(st.integers(1, 30).map(float), st.integers(10, 100000).map(lambda i: i / 1000))
_end = st.one_of(st.integers(-24, 48).map(lambda i: 15. * i), st.integers(-360, 720).map(float), st.integers(-360000, 720000).map(lambda i: i / 1000))
_domain = st.tuples(_end, _end)


def V(p):
    return Vector2D(p)


def width(start, stop):
    """Extent in degrees of the counter-clockwise arc from start to stop"""
    if abs(stop - start) >= 360:
        return 360.
    return (stop - start) % 360


def inside(angle, start, stop):
    """None when the angle is too close to an end"""
    w = width(start, stop)
    if w == 360:
        return True
    a = (angle - start) % 360
    if min(abs(a), abs(a - w), 360 - a) < 1e-6:
        return None
    return a < w


@check.facet(st.tuples(_domain, gen.angle, gen.angle_360), quick=4000)
def domains(case):
    (start, stop), angle, turn = case
    d = AngularDomain(start, stop)
    w = width(start, stop)
    ensure(d.start == start and d.stop == stop, 'ends')
    ensure_close(d.start_radians, math.radians(start), 'start in radians')
    ensure_close(d.stop_radians, math.radians(stop), 'stop in radians')
    ensure_close(d.length, math.radians(w), 'length of the arc {}', case[0])
    ensure(bool(d.is_closed) == (abs(stop - start) >= 360), 'is_closed of {}', case[0])
    ensure(bool(d.is_null) == (start == stop), 'is_null of {}', case[0])
    ensure(bool(d.is_over_closed) == (abs(stop - start) > 360), 'is_over_closed of {}', case[0])
    ensure(d.span == abs(stop - start), 'span of {}', case[0])
    # a domain follows its ends, a clone does not
    moved = d.clone()
    moved.start, moved.stop = angle, turn
    ensure((d.start, d.stop, moved.start, moved.stop) == (start, stop, angle, turn), 'ends of a clone')
    ensure_close(moved.length, math.radians(width(angle, turn)), 'length of the arc {}..{} after a change of its ends', angle, turn)
    ensure(bool(moved.is_closed) == (abs(turn - angle) >= 360), 'is_closed after a change of the ends')
    ensure(bool(d.is_clockwise) == (stop < start) and bool(d.is_counterclockwise) == (start <= stop), 'direction')
    e = AngularDomain(math.radians(start), math.radians(stop), degrees=False)
    ensure_close(e.start, start, 'start given in radians')
    ensure_close(e.stop, stop, 'stop given in radians')
    middle = start + w / 2
    for a in (angle, turn, middle, middle + 180, start + .01, start - .01, stop + .01, stop - .01):
        expected = inside(a, start, stop)
        if expected is not None:
            for k in (0, 360, -360):
                ensure(bool(d.is_inside(a + k)) == expected, 'angle {} in {}..{}', a + k, start, stop)
    return 'closed' if w == 360 else ('wrapped' if stop < start else None if start == 0 else 'arc')


@check.facet(st.tuples(gen.point_tame, _radius, gen.angle, _domain, gen.positive), quick=3000)
def circles(case):
    c, r, angle, domain, length = case
    circle = Circle2D(V(c), r)
    scale = num.magnitude_of(c, (r, r))
    p = circle.point_at_angle(angle)
    ensure_point(p, add(c, polar(r, angle)), 'point at angle {}', angle, scale=scale)
    reported = circle.angle_for_point(p)
    ensure(num.angle_difference(reported, angle) < 1e-5 * scale / r, 'the point at angle {} reports the angle {}', angle, reported)
    ensure(-1e-9 <= reported <= 360, 'angle {}', reported)
    q = add(c, polar(2.5 * r, angle))
    ensure(num.angle_difference(circle.angle_for_point(V(q)), angle) < 1e-5 * scale / r, 'angle for a point out of the circle')
    ensure(circle.radius == r and circle.diameter == 2 * r and xy(circle.center) == c, 'radius, diameter, centre')
    ensure_close(circle.perimeter, 2 * math.pi * r, 'perimeter')
    ensure_close(circle.area, math.pi * r * r, 'area')
    ensure(circle.eccentricity == 0, 'eccentricity of a circle')
    ensure(circle.is_closed and circle.start_point is None and circle.stop_point is None, 'a circle has no ends')
    ensure_point(circle.point_in_circle_frame(p), polar(r, angle), 'point in the frame of the circle', scale=scale)

    tangent = circle.tangent_at_angle(angle)
    ensure_point(tangent.p, xy(p), 'point of the tangent', scale=scale)
    v = xy(tangent.v)
    ensure(norm(v) > 0 and abs(dot(v, polar(1, angle))) <= 1e-8 * norm(v) * scale / r, 'the tangent at {} is not orthogonal to the radius', angle)

    ensure_point(circle.point_at_distance(length), add(c, polar(r, math.degrees(length / r))), 'point at the curvilinear distance {}', length, scale=scale,
                 rtol=1e-8)

    d = Circle2D(V(c), 2 * r, diameter=True)
    ensure(d.radius == r, 'circle of given diameter')
    ensure_close(Circle2D.from_two_points(V(c), p).radius, r, 'circle by a centre and a point', scale=scale)

    # arcs
    start, stop = domain
    w = width(start, stop)
    arc = Circle2D(V(c), r, domain=AngularDomain(start, stop))
    ensure_close(arc.perimeter, r * math.radians(w), 'length of the arc')
    ensure(bool(arc.is_closed) == (w == 360), 'closure of the arc {}', domain)
    ensure_point(arc.start_point, add(c, polar(r, start)), 'start point', scale=scale)
    ensure_point(arc.stop_point, add(c, polar(r, stop)), 'stop point', scale=scale)
    copy = arc.clone()
    ensure((xy(copy.center), copy.radius, copy.domain.start, copy.domain.stop) == (c, r, start, stop), 'clone of an arc')
    copy.radius = 2 * r
    copy.center = V((c[0] + 1, c[1]))
    copy.domain.start = start + 1
    ensure(xy(arc.center) == c and arc.radius == r and arc.domain.start == start, 'a clone is independent')

    # arc given by a length
    arc = Circle2D(V(c), r, start_angle=start, distance=length)
    if length > 2 * math.pi * r:
        ensure(arc.domain is None, 'an arc longer than the circle is a circle')
    else:
        ensure(arc.domain.start == start, 'start angle')
        ensure_close(arc.perimeter, length, 'length of an arc of given length', scale=scale)
    return 'wrapped' if stop < start else 'arc'


@check.facet(st.tuples(gen.point_tame, _radius, _domain, gen.angle, st.one_of(st.just(0.), st.integers(1, 4000).map(lambda i: i / 1000)), gen.point_tame),
             quick=4000)
def distances(case):
    c, r, (start, stop), angle, factor, other = case
    circle = Circle2D(V(c), r)
    start_p, stop_p = add(c, polar(r, start)), add(c, polar(r, stop))
    arc = Circle2D(V(c), r, domain=AngularDomain(start, stop))
    label = None
    for p in (add(c, polar(factor * r, angle)) if factor else c, other):
        scale = num.magnitude_of(c, (r, r), p)
        d = dist(p, c)
        ensure_close(circle.distance_to_point(V(p)), abs(d - r), 'distance of {} to the circle', p, scale=scale)
        ensure_close(circle.signed_distance_to_point(V(p)), d - r, 'signed distance of {} to the circle', p, scale=scale)
        if abs(d - r) > 1e-7 * scale:
            ensure(bool(circle.is_point_inside(V(p))) == (d < r), '{} inside', p)
        ends = min(dist(p, start_p), dist(p, stop_p))
        if d < 1e-9 * scale:
            expected = abs(d - r)
        else:
            is_in = inside(num.orientation(sub(p, c)), start, stop)
            if is_in is None:
                continue
            expected = abs(d - r) if is_in else ends
            label = 'facing the arc' if is_in else 'nearest end'
        ensure_close(arc.distance_to_point(V(p)), expected, 'distance of {} to the arc {}..{}', p, start, stop, scale=scale, rtol=1e-8)
    if width(start, stop) == 360:
        return None
    return label


_pythagorean = st.sampled_from([(1, 0, 1), (0, 1, 1), (3, 4, 5), (4, 3, 5), (5, 12, 13), (8, 15, 17), (24, 7, 25)])


@check.facet(st.tuples(gen.point_lattice, _radius, gen.angle, st.integers(0, 3000).map(lambda i: i / 1000),
                       st.tuples(gen.scalar, gen.nonzero_scalar), _pythagorean, st.integers(-8, 8), st.booleans()), quick=4000)
def lines(case):
    """The line through the two points of the segment"""
    c, r, angle, offset, (s, t), (a, b, h), k, tangent = case
    if tangent:
        # everything is an integer: exactly tangent at c + sign*r*(a, b)/h with r = |k| h
        k = k or 3
        r = float(abs(k) * h)
        contact = (c[0] + k * a, c[1] + k * b)
        p0 = (contact[0] - b * round(s), contact[1] + a * round(s))
        p1 = (p0[0] - b * (round(t) or 1), p0[1] + a * (round(t) or 1))
        expected = [contact]
    else:
        u = polar(1, angle)
        n = (-u[1], u[0])
        foot = add(c, mul(n, offset * r))
        p0, p1 = add(foot, mul(u, s)), add(foot, mul(u, s + t))
        if abs(offset - 1) < 1e-3:
            return None
        if offset > 1:
            expected = []
        else:
            half = r * math.sqrt(1 - offset**2)
            expected = [add(foot, mul(u, -half)), add(foot, mul(u, half))]
    if dist(p0, p1) < 1e-1:
        return None
    circle = Circle2D(V(c), r)
    result = list(circle.intersect_segment(Segment2D(V(p0), V(p1))) or ())
    scale = max(num.magnitude_of(c, (r, r), p0, p1), num.magnitude_of(c, (r, r), p0, p1)**2 / dist(p0, p1))
    ensure(len(result) == len(expected), 'line {} {} and circle {} {}: {} intersections, expected {}', p0, p1, c, r, result, expected)
    result = sorted(xy(x) for x in result)
    if len(expected) == 2:
        e = [expected, expected[::-1]]
        ensure(any(all(num.pclose(x, y, scale, 1e-7) for x, y in zip(result, z)) for z in e), 'intersections {}, expected {}', result, expected)
    elif expected:
        ensure(num.pclose(result[0], expected[0], scale, 1e-7), 'tangent point {}, expected {}', result, expected)
    return [None, 'tangent', 'secant'][len(expected)]


@check.facet(st.tuples(gen.point_tame, _radius, _radius, gen.angle, st.sampled_from(['secant', 'secant', 'disjoint', 'nested', 'concentric', 'tangent', 'inside']),
                       st.integers(1, 999).map(lambda i: i / 1000), _pythagorean, gen.point_lattice), quick=4000)
def two_circles(case):
    c1, r1, r2, angle, kind, t, (a, b, h), lattice = case
    low, high = abs(r1 - r2), r1 + r2
    expected = 0
    if kind == 'secant':
        d = low + (high - low) * (.02 + .96 * t)
        expected = 2
    elif kind == 'disjoint':
        d = high * (1.01 + t)
    elif kind == 'nested':
        if low < 1e-2:
            return None
        d = low * t * .99
    elif kind == 'concentric':
        d = 0
    else:
        # exactly tangent on a lattice
        k1, k2 = 1 + int(r1) % 7, 1 + int(r2) % 7
        c1 = lattice
        r1, r2 = float(k1 * h), float(k2 * h)
        sign = 1 if angle >= 0 else -1
        if kind == 'inside':
            if k1 == k2:
                return None
            k = k1 - k2
        else:
            k = k1 + k2
        c2 = (c1[0] + sign * k * a, c1[1] + sign * k * b)
        contact = (c1[0] + sign * k1 * a, c1[1] + sign * k1 * b)
        expected = 1
    if expected != 1:
        c2 = add(c1, polar(d, angle))
    scale = num.magnitude_of(c1, c2, (r1, r2))
    if expected == 0 and 0 < dist(c1, c2) < 1e-2:
        return None
    p = Circle2D(V(c1), r1).intersect_circle(Circle2D(V(c2), r2))
    q = Circle2D(V(c2), r2).intersect_circle(Circle2D(V(c1), r1))
    for points in (p, q):
        points = [xy(x) for x in points or ()]
        if expected == 1:
            # the discriminant can be rounded to a tiny value
            ensure(len(points) <= 2, 'more than two intersections')
            if points:
                for x in points:
                    ensure(dist(x, contact) < 1e-4 * scale, 'tangent circles {} {}, {} {}: {} instead of {}', c1, r1, c2, r2, x, contact)
            elif kind == 'tangent' and h == 1:
                fail('tangent circles {} {}, {} {}: no intersection', c1, r1, c2, r2)
            continue
        ensure(len(points) == expected, 'circles {} {}, {} {}: {} intersections, expected {}', c1, r1, c2, r2, points, expected)
        if expected:
            for x in points:
                ensure(abs(dist(x, c1) - r1) < 1e-7 * scale and abs(dist(x, c2) - r2) < 1e-5 * scale, 'intersection {} is off a circle', x)
            # symmetric about the line of the centres
            height = 2 * r1 * math.sqrt(max(0, 1 - ((r1**2 + d**2 - r2**2) / (2 * r1 * d))**2))
            ensure(abs(dist(*points) - height) < 1e-5 * scale, 'the intersections {} are not distinct', points)
    return {0: None, 1: 'tangent', 2: 'secant'}[expected]


@check.facet(st.tuples(gen.point_tame, _radius, st.one_of(st.none(), _domain), st.lists(st.tuples(st.booleans(), st.one_of(maps.similarity, maps.similarity, maps.shear)), min_size=1, max_size=5)), quick=1500)
def transforms(case):
    """A similarity maps an arc onto the arc through the images of its points, other maps are refused"""
    c, r, domain, history = case
    start, stop = domain or (0, 360)
    w = width(start, stop)
    fractions = (0, .2, .5, .8, 1)
    # the ends of an arc longer than the circle are not at the same point
    points = [add(c, polar(r, start + f * (w if w < 360 else stop - start))) for f in fractions]
    circle = Circle2D(V(c), r, domain=domain and AngularDomain(start, stop))
    radius = r
    turned = False
    for copy, m in history:
        previous = circle
        state = repr(circle)
        if copy:
            circle = circle.clone()
        scale = num.magnitude_of(c, (radius, radius))
        if not maps.is_similarity(m):
            try:
                circle.apply_transformation(maps.build(m))
            except ValueError:
                ensure(repr(circle) == state, 'a refused transformation changed the circle: {} instead of {}', circle, state)
                continue
            fail('a circle sheared by {} is {}', m, circle)
        circle.apply_transformation(maps.build(m))
        if copy:
            ensure(repr(previous) == state, 'the transformation of a clone changed the circle')
        edge = maps.image(m, add(c, (radius, 0)))
        c = maps.image(m, c)
        radius = dist(edge, c)
        points = [maps.image(m, p) for p in points]
        scale = max(scale, num.magnitude_of(c, (radius, radius)))
        if maps.is_reflection(m):
            # counterclockwise arcs exchange their ends
            points.reverse()
        turned = turned or m[0] not in ('translation', 'identity', 'affine identity')
        ensure_point(circle.center, c, 'centre of the image by {}', m, scale=scale)
        ensure_close(circle.radius, radius, 'radius of the image by {}', m, scale=scale)
        if domain is None:
            ensure(circle.domain is None, 'a circle became an arc')
        else:
            d = circle.domain
            ensure_point(circle.start_point, points[0], 'start of the image by {}', m, scale=scale, rtol=1e-8)
            ensure_point(circle.stop_point, points[-1], 'end of the image by {}', m, scale=scale, rtol=1e-8)
            span = width(d.start, d.stop) if w < 360 else 360
            ensure(abs(span - w) < 1e-7 or w > 359.999, 'extent of the arc {} instead of {}', span, w)
            if w < 359.999:
                for f, p in zip(fractions, points):
                    ensure_point(circle.point_at_angle(d.start + f * span), p, 'point of the image by {}', m, scale=scale, rtol=1e-7)
    return None if not turned else 'circle' if domain is None else 'arc'


@check.facet(st.tuples(gen.points(4, 4, gen.point_tame), gen.positive, gen.positive, gen.angle_360, gen.angle_360, scaling.exponent), quick=1000)
def scales(case):
    points, radius1, radius2, angle1, angle2, k = case

    def evaluate(points, r1, r2):
        a, b, p, q = [Vector2D(x) for x in points]
        circle = Circle2D(a, r1)
        arc = Circle2D(a, r1, domain=AngularDomain(*sorted((angle1, angle2))))
        other = Circle2D(b, r2)
        return dict(
            perimeter=(1, lambda: arc.perimeter), area=(2, lambda: circle.area), point=(1, lambda: circle.point_at_angle(angle1)),
            angle=(0, lambda: circle.angle_for_point(p)), at_distance=(1, lambda: circle.point_at_distance(r2)),
            signed=(1, lambda: circle.signed_distance_to_point(p)), distance=(1, lambda: arc.distance_to_point(p)),
            inside=(0, lambda: bool(circle.is_point_inside(p))),
            segment=(1, lambda: circle.intersect_segment(Segment2D(p, q))), circle=(1, lambda: circle.intersect_circle(other)),
        )

    scaling.verify(evaluate, [points, radius1, radius2], k)
    return 'scaled'
