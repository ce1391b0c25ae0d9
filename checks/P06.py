"""P06 — segments"""

import math
from fractions import Fraction

from hypothesis import strategies as st

from Patro.GeometryEngine.Segment import Segment2D
from Patro.GeometryEngine.Triangle import same_side, triangle_orientation
from Patro.GeometryEngine.Vector import Vector2D

from pbt import gen, num, shapes
from pbt import scaling
from pbt.harness import Check, ensure, fail
from pbt.num import ensure_close, ensure_point, xy
from pbt.shapes import on_segment, orient, segments_share_a_point

check = Check(
    'P06',
    rule='Hypothesis generates pairs of segments and points, mostly on a small lattice (scaled by powers of two, so that the predicates of the code '
         'are exact) with constructed contacts: shared ends, T contacts, collinear overlap, degenerate segments.  The oracle uses rational arithmetic. '
         'A case is non-trivial when an end point is on the other segment, points are collinear, or the segments cross.',
    assumptions=['lattice coordinates (integers up to 12 multiplied by a power of two) for exact predicates, coordinates up to 1e3 for distances'],
)

_cell = st.tuples(st.integers(-6, 6), st.integers(-6, 6))


@st.composite
def _segments(draw):
    """Two segments on a lattice with a contact more often than not"""
    a, b = draw(_cell), draw(_cell)
    kind = draw(st.sampled_from(['any', 'any', 'shared end', 'T', 'collinear', 'cross', 'degenerate', 'long']))
    if kind == 'shared end':
        c, d = draw(st.sampled_from([a, b])), draw(_cell)
    elif kind in ('T', 'collinear', 'cross'):
        # b = a + k step
        sx, sy = draw(st.tuples(st.integers(-2, 2), st.integers(-2, 2)))
        k = draw(st.integers(1, 4))
        b = (a[0] + k * sx, a[1] + k * sy)
        i = draw(st.integers(-2, k + 2))
        c = (a[0] + i * sx, a[1] + i * sy)
        if kind == 'collinear':
            j = draw(st.integers(-2, k + 2))
            d = (a[0] + j * sx, a[1] + j * sy)
        elif kind == 'T':
            d = draw(_cell)
        else:
            ux, uy = draw(_cell)
            d = (c[0] + ux, c[1] + uy)
            c = (c[0] - ux, c[1] - uy)
    elif kind == 'degenerate':
        c = draw(_cell)
        d = c
    elif kind == 'long':
        c, d = (draw(st.integers(-100, 100)), draw(st.integers(-100, 100))), draw(_cell)
    else:
        c, d = draw(_cell), draw(_cell)
    if draw(st.booleans()):
        c, d = d, c
    if draw(st.booleans()):
        a, b, c, d = c, d, a, b
    factor = 2. ** draw(st.integers(-6, 6))
    return [(x * factor, y * factor) for x, y in (a, b, c, d)]


def S(a, b):
    return Segment2D(Vector2D(a), Vector2D(b))


@check.facet(_segments(), quick=5000, shards=2)
def intersections(case):
    a, b, c, d = case
    expected = segments_share_a_point(a, b, c, d)
    for (p, q, r, s) in ((a, b, c, d), (b, a, c, d), (a, b, d, c), (c, d, a, b), (d, c, b, a)):
        result = S(p, q).intersect_with(S(r, s))
        ensure(bool(result) == expected, 'intersect_with of {}-{} and {}-{}: {}', p, q, r, s, result)

    # intersection of the supporting lines
    v, w = num.sub(b, a), num.sub(d, c)
    cross = num.cross(v, w)
    point, interior = S(a, b).intersection(S(c, d))
    if cross == 0:
        ensure(point is None and interior is None, 'parallel segments {} intersect at {}', case, point)
    elif abs(cross) > 1e-6:
        t = Fraction(num.cross(num.sub(c, a), w)) / Fraction(cross)
        u = Fraction(num.cross(num.sub(c, a), v)) / Fraction(cross)
        exact = (float(Fraction(a[0]) + t * Fraction(v[0])), float(Fraction(a[1]) + t * Fraction(v[1])))
        ensure_point(point, exact, 'intersection of the supporting lines', scale=num.magnitude_of(*case) + num.magnitude_of(exact))
        inside = 0 <= t <= 1 and 0 <= u <= 1
        ensure(bool(interior) == inside, 'intersection of {} flagged {} (abscissae {} {})', case, interior, t, u)
        ensure(inside == expected, 'oracle')
    shared = [p for p in (a, b) if p in (c, d)]
    vertex = S(a, b).share_vertex_with(S(c, d))
    ensure((vertex is None) == (not shared), 'shared vertex of {}: {}', case, vertex)
    if shared:
        ensure(xy(vertex) in shared, 'shared vertex of {}: {}', case, vertex)
    s = S(a, b)
    ensure_close(s.cross(S(c, d)), cross, 'cross product', scale=1, rtol=1e-12)
    if any(on_segment(p, q, r) for p, q, r in ((c, a, b), (d, a, b), (a, c, d), (b, c, d))):
        return 'contact' if cross else 'parallel contact'
    return 'cross' if expected else ('collinear' if orient(a, b, c) == 0 else None)


@check.facet(st.tuples(_segments(), st.integers(-3, 9), st.integers(1, 6)), quick=3000)
def points(case):
    (a, b, p, _), i, k = case
    if i > -3:
        # a point of the line
        p = num.lerp(a, b, i / 4 if k < 4 else i / 8)
    s = S(a, b)
    v = Vector2D(p)
    side = orient(a, b, p)
    value = s.side_of(v)
    ensure((value > 0) - (value < 0) == side, 'side of {} relative to {}-{}: {}', p, a, b, value)
    ensure(bool(s.left_of(v)) == (side > 0), 'left_of')
    ensure(bool(s.right_of(v)) == (side < 0), 'right_of')
    ensure(bool(s.is_collinear(v)) == (side == 0), 'is_collinear of {} with {}-{}', p, a, b)
    on = on_segment(p, a, b)
    distance = num.distance_to_segment(p, a, b)
    if on or distance > 1e-3:
        ensure(bool(s.contain_point(v)) == on, 'contain_point of {} in {}-{}', p, a, b)
    ensure_close(s.distance_to_point(v), distance, 'distance of {} to {}-{}', p, a, b, scale=num.magnitude_of(a, b, p))
    ensure_close(S(b, a).distance_to_point(v), distance, 'distance of {} to {}-{}', p, b, a, scale=num.magnitude_of(a, b, p))
    # Sedgewick's convention
    o = triangle_orientation(Vector2D(a), Vector2D(b), v)
    if side:
        ensure(o == side, 'triangle_orientation of {} {} {}: {}', a, b, p, o)
    elif a != b:
        behind = num.dot(num.sub(p, a), num.sub(b, a)) < 0
        expected = 0 if on else -1 if behind else 1
        ensure(o == expected, 'triangle_orientation of {} {} {}: {}', a, b, p, o)
    if side == 0:
        return 'on the segment' if on else 'collinear'
    return 'generic' if distance > 1e-9 else None


@check.facet(st.tuples(gen.point_tame, gen.point_tame, gen.point_tame, gen.parameter, gen.point_tame), quick=3000)
def distances(case):
    a, b, p, t, q = case
    s = S(a, b)
    scale = num.magnitude_of(a, b, p)
    d = s.distance_to_point(Vector2D(p))
    ensure_close(d, num.distance_to_segment(p, a, b), 'distance of {} to {}-{}', p, a, b, scale=scale)
    # not farther than any point of the segment
    x = num.lerp(a, b, t)
    ensure(d <= num.dist(p, x) + 1e-8 * scale, 'a point of the segment is nearer than the distance {}', d)
    ensure_point(s.interpolate(t), x, 'interpolate', scale=scale)
    ensure_point(s.point_at_t(t), x, 'point_at_t', scale=scale)
    ensure(float(s.distance_to_point(Vector2D(x))) <= 1e-6 * scale, 'distance of a point of the segment')
    ensure_close(s.length, num.dist(a, b), 'length', scale=scale)
    ensure_point(s.center, num.lerp(a, b, .5), 'centre', scale=scale)
    ensure_point(s.vector, num.sub(b, a), 'vector', scale=scale)
    ensure_close(s.cross_product, num.cross(a, b), 'cross product', scale=scale**2)
    line = s.to_line()
    ensure_point(line.interpolate(t), x, 'point of the supporting line', scale=scale)
    if a == b:
        return 'degenerate'
    u = num.dot(num.sub(p, a), num.sub(b, a)) / num.dist(a, b)**2
    return 'interior' if 0 < u < 1 else 'before' if u <= 0 else 'after'


@check.facet(st.tuples(_segments()), quick=800)
def sides(case):
    ((a, b, c, d),) = case
    if a == b:
        return None
    o1, o2 = orient(a, b, c), orient(a, b, d)
    ensure(bool(same_side(Vector2D(c), Vector2D(d), Vector2D(a), Vector2D(b))) == (o1 * o2 >= 0), 'same_side of {} {} relative to {} {}', c, d, a, b)
    return 'on the line' if 0 in (o1, o2) else 'generic'


@check.facet(st.tuples(gen.points(5, 5, gen.point_lattice), scaling.exponent), quick=1200)
def scales(case):
    points, k = case

    def evaluate(*points):
        a, b, c, d, p = [Vector2D(x) for x in points]
        s, t = Segment2D(a, b), Segment2D(c, d)
        return dict(
            length=(1, lambda: s.length), cross_product=(2, lambda: s.cross_product), center=(1, lambda: s.center),
            intersect_with=(0, lambda: bool(s.intersect_with(t))),
            side_of=(2, lambda: s.side_of(p)), left_of=(0, lambda: bool(s.left_of(p))), right_of=(0, lambda: bool(s.right_of(p))),
            is_collinear=(0, lambda: bool(s.is_collinear(p))), distance=(1, lambda: s.distance_to_point(p)),
            triangle_orientation=(0, lambda: triangle_orientation(a, b, p)), same_side=(0, lambda: bool(same_side(c, d, a, b))),
        )

    scaling.verify(evaluate, list(points), k)
    return 'scaled' if points[0] != points[1] else 'null segment'
