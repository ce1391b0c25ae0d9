"""P07 — polygon, triangle and rectangle measures"""

import math
from fractions import Fraction

from hypothesis import strategies as st

from Patro.GeometryEngine.Polygon import Polygon2D
from Patro.GeometryEngine.Rectangle import Rectangle2D
from Patro.GeometryEngine.Triangle import Triangle2D
from Patro.GeometryEngine.Vector import Vector2D

from pbt import gen, num, shapes
from pbt import scaling
from pbt.harness import Check, ensure, fail
from pbt.num import ensure_close, ensure_point, xy

check = Check(
    'P07',
    rule='Hypothesis generates simple polygons (monotone lattice polygons, star-shaped, untangled lattice sets, convex hulls; both orientations, any '
         'starting vertex, flat angles and duplicated vertices), arbitrary closed lattice walks for the simplicity test, triangles and rectangles; the oracle is '
         'exact rational arithmetic.  A case is non-trivial when the polygon is not a triangle, or is not convex, or has flat angles.',
    assumptions=['at most ten vertices', 'orientation of a self-intersecting polygon is not specified'],
)


def P(points):
    return Polygon2D(*[Vector2D(p) for p in points])


@check.facet(st.tuples(shapes.simple_polygon(), st.integers(0, 9), gen.point_lattice), quick=3000, shards=3)
def measures(case):
    points, k, offset = case
    k %= len(points)
    area, (bx, by) = shapes.signed_area_barycenter(points)
    scale = num.magnitude_of(*points)
    perimeter = sum(num.dist(points[i - 1], points[i]) for i in range(len(points)))
    rotated = points[k:] + points[:k]
    robust = shapes.robust(points)
    for variant, sign in ((points, 1), (rotated, 1), (points[::-1], -1), (rotated[::-1], -1)):
        p = P(variant)
        if not robust and not p.is_simple:
            return None
        ensure(p.is_simple, 'the polygon {} is reported as self-intersecting', variant)
        ensure_close(p.area, abs(float(area)), 'area of {}', variant, scale=scale**2)
        ensure(p.area >= 0, 'the area is negative')
        ensure_point(p.barycenter, (float(bx), float(by)), 'barycentre of {}', variant,
                     scale=scale * max(1, scale**2 / abs(float(area))))
        ensure_close(p.perimeter, perimeter, 'perimeter', scale=scale)
        clockwise = area * sign < 0
        ensure(bool(p.is_clockwise) == clockwise and bool(p.is_counterclockwise) != clockwise, 'orientation of {}: clockwise {}', variant, p.is_clockwise)
        convex = shapes.is_convex(variant)
        ensure(not robust or bool(p.is_convex) == convex and bool(p.is_concave) != convex, 'convexity of {}: {}', variant, p.is_convex)
        ensure_point(p.point_barycenter, (sum(x for x, _ in points) / len(points), sum(y for _, y in points) / len(points)), 'mean of the vertices',
                     scale=scale)
        ensure(p.number_of_edges == len(points) and p.is_triangle == (len(points) == 3), 'number of edges')
        ensure([xy(q) for q in p.points] == [tuple(q) for q in variant], 'the queries move the vertices of {}', variant)
    # queries in another order give the same values
    if robust:
        ensure(bool(P(points).is_concave) != shapes.is_convex(points), 'concavity asked first')
    p = P(points)
    ensure(bool(p.is_clockwise) == (area < 0), 'orientation asked first')
    p = P(points)
    ensure_point(p.barycenter, (float(bx), float(by)), 'barycentre asked first', scale=scale * max(1, scale**2 / abs(float(area))))
    ensure_close(p.area, abs(float(area)), 'area asked last', scale=scale**2)
    # centred on the barycentre
    p.recenter()
    moved = [xy(q) for q in p.points]
    for q, r in zip(moved, points):
        ensure(num.pclose(q, num.sub(r, (float(bx), float(by))), scale * max(1, scale**2 / abs(float(area)))), 'recentred vertex {}', q)
    if p.is_simple or shapes.robust(moved):   # the rounding of the translation bends flat angles
        ensure_point(p.barycenter, (0, 0), 'barycentre once centred', scale=scale * max(1, scale**2 / abs(float(area))))
    if len(points) == 3:
        t = p.to_triangle()
        ensure_close(t.area, abs(float(area)), 'area of the triangle', scale=scale**2)
        return None
    try:
        p.to_triangle()
    except ValueError:
        pass
    else:
        fail('the triangle of a polygon of {} vertices', len(points))
    return ('convex ' if shapes.is_convex(points) else 'concave ') + ('clockwise' if area < 0 else 'counter-clockwise')


_symmetric = st.builds(lambda a, b, c: [(-a, -b), (a, -b), (a + c, 0.), (a, b), (-a, b), (-a - c, 0.)] if c else [(-a, -b), (a, -b), (a, b), (-a, b)],
                       *[st.integers(1, 9).map(float)] * 2, st.integers(0, 3).map(float))


@check.facet(st.tuples(st.one_of(shapes.simple_polygon(), _symmetric), st.integers(0, 9), st.one_of(st.just(None), gen.point_lattice), st.booleans()), quick=1500)
def inertia_axes(case):
    """Axes of the second moments of the vertices about the origin"""
    points, k, offset, centred = case
    k %= len(points)
    if offset is not None:
        points = [num.add(p, offset) for p in points]
    variant = points[k:] + points[:k]
    if not shapes.robust(points):
        return None
    polygon = P(variant)
    if centred:
        polygon.recenter()
        points = [xy(p) for p in polygon.points]
    scale = num.magnitude_of(*points)
    n = len(points)
    xx = math.fsum([x * x for x, _ in points]) / n
    yy = math.fsum([y * y for _, y in points]) / n
    cross = math.fsum([x * y for x, y in points]) / n
    root = math.hypot(xx - yy, 2 * cross)
    major, minor = (xx + yy + root) / 2, max(xx + yy - root, 0) / 2
    if centred and len(points) % 2:   # whatever is asked first
        ensure(polygon.axis_ratio >= 0, 'ratio of the axes')
    # eigen values are known up to rounding, the square root magnifies it near 0
    ensure(abs(polygon.major_axis**2 - 16 * major) <= 1e-9 * scale**2, 'major axis of {}: {}', points, polygon.major_axis)
    ensure(abs(polygon.minor_axis**2 - 16 * minor) <= 1e-9 * scale**2, 'minor axis of {}: {}', points, polygon.minor_axis)
    ensure(polygon.major_axis >= polygon.minor_axis * (1 - 1e-9), 'the minor axis of {} is the larger', points)
    if minor > 1e-6 * scale**2:
        ensure(num.close(polygon.axis_ratio, math.sqrt(major / minor), rtol=1e-6), 'ratio of the axes of {}: {}', points, polygon.axis_ratio)
    if root < 1e-6 * scale**2:
        return None     # no direction
    angle = math.radians(polygon.major_axis_angle)
    c, s = math.cos(angle), math.sin(angle)
    along = xx * c * c + 2 * cross * c * s + yy * s * s
    ensure(abs(along - major) <= 1e-6 * root, 'the direction {} of the major axis of {}', polygon.major_axis_angle, points)
    ensure([xy(q) for q in polygon.points] == [tuple(q) for q in (points if centred else variant)], 'the queries move the vertices of {}', points)
    return 'aligned' if cross == 0 else 'rising' if cross > 0 else 'falling'


_walk = st.one_of(
    st.lists(gen.point_lattice, min_size=3, max_size=7, unique=True),
    st.lists(gen.point_lattice, min_size=3, max_size=6),
    st.lists(st.tuples(st.integers(0, 2).map(float), st.integers(0, 2).map(float)), min_size=3, max_size=7, unique=True),
    shapes.simple_polygon(),
)


@check.facet(st.tuples(_walk, st.integers(0, 9)), quick=4000, shards=2)
def simplicity(case):
    points, k = case
    k %= len(points)
    distinct = [p for i, p in enumerate(points) if p != points[i - 1]]
    if len(distinct) < 3:
        return None
    if not shapes.robust(points):
        return None
    expected = shapes.is_simple(points)
    for variant in (points, points[k:] + points[:k], points[::-1]):
        p = P(variant)
        ensure(bool(p.is_simple) == expected, 'simplicity of {}: {}', variant, p.is_simple)
        if not expected:
            ensure(p.area is None and p.barycenter is None and p.is_clockwise is None, 'measures of a self-intersecting polygon')
            ensure(not p.is_convex, 'a self-intersecting polygon is convex')
    return 'simple' if expected and len(points) > 3 else None if expected else 'not simple'


@check.facet(st.tuples(shapes.triangle(), gen.angle), quick=2500)
def triangles(case):
    points, angle = case
    t = Triangle2D(*[Vector2D(p) for p in points])
    scale = num.magnitude_of(*points)
    area, barycenter = shapes.signed_area_barycenter(points)
    sides = [num.dist(points[i], points[(i + 1) % 3]) for i in range(3)]
    ensure_close(t.area, abs(float(area)), 'area', scale=scale**2)
    ensure_close(t.perimeter, sum(sides), 'perimeter', scale=scale)
    p = t.to_polygon()
    ensure_close(p.area, abs(float(area)), 'area of the polygon', scale=scale**2)
    ensure_close(p.perimeter, sum(sides), 'perimeter of the polygon', scale=scale)
    ensure(bool(p.is_convex), 'a triangle is convex')
    # exact squared lengths
    fr = [shapes.F(q) for q in points]
    squares = [(fr[i][0] - fr[(i + 1) % 3][0])**2 + (fr[i][1] - fr[(i + 1) % 3][1])**2 for i in range(3)]
    close = any(a != b and abs(a - b) < Fraction(1, 10**9) * max(squares) for a in squares for b in squares)
    if not close:
        n = len(set(squares))
        small = all(q.denominator == 1 and abs(q) <= 64 for xyq in fr for q in xyq)
        if small or n == 3:   # equal lengths are computed as equal
            ensure(bool(t.is_equilateral) == (n == 1), 'is_equilateral of {}', points)
            ensure(bool(t.is_isosceles) == (n == 2), 'is_isosceles of {}', points)
            ensure(bool(t.is_scalene) == (n == 3), 'is_scalene of {}', points)
    largest = max(squares)
    excess = largest - (sum(squares) - largest)   # > 0: obtuse
    if abs(excess) > Fraction(1, 10**6) * largest:
        ensure(bool(t.is_obtuse) == (excess > 0), 'is_obtuse of {}', points)
        ensure(bool(t.is_acute) == (excess < 0), 'is_acute of {}', points)
        ensure(bool(t.is_oblique), 'is_oblique of {}', points)
    # bisectors
    for i, (vector, line) in enumerate(((t.bisector_vector0, t.bisector_line0), (t.bisector_vector1, t.bisector_line1), (t.bisector_vector2, t.bisector_line2))):
        u, v = num.sub(points[(i + 1) % 3], points[i]), num.sub(points[(i + 2) % 3], points[i])
        b = xy(vector)
        cu = num.dot(u, b) / num.norm(u)
        cv = num.dot(v, b) / num.norm(v)
        ensure(abs(cu - cv) <= 1e-7 * max(1e-3, abs(cu)) + 1e-7 and cu >= -1e-9, 'the bisector {} of {} makes unequal angles', i, points)
        ensure(num.cross(u, b) * num.cross(b, v) > -1e-9, 'the bisector {} of {} is outside', i, points)
        ensure_point(line.p, points[i], 'bisector line')
        ensure(abs(num.cross(xy(line.v), b)) <= 1e-9, 'bisector line')
    ensure([xy(q) for q in t.points] == [tuple(q) for q in points], 'the queries move the vertices of {}', points)
    # flat triangles are refused
    a, v = points[0], num.sub(points[1], points[0])
    try:
        Triangle2D(Vector2D(0, 0), Vector2D(v), Vector2D(num.mul(v, 2)))
    except ValueError:
        pass
    else:
        fail('a flat triangle is accepted')
    return 'obtuse' if excess > 0 else 'acute' if excess < 0 else 'right'


@check.facet(st.tuples(gen.point_tame, gen.point_tame), quick=1000)
def rectangles(case):
    p, q = case
    if p[0] == q[0] or p[1] == q[1]:
        return None
    r = Rectangle2D(Vector2D(p), Vector2D(q))
    w, h = abs(q[0] - p[0]), abs(q[1] - p[1])
    scale = num.magnitude_of(p, q)
    ensure_close(r.area, w * h, 'area', scale=scale**2)
    ensure_close(r.perimeter, 2 * (w + h), 'perimeter', scale=scale)
    polygon = r.to_polygon()
    ensure(polygon.is_simple and polygon.is_convex, 'polygon of a rectangle')
    ensure_close(polygon.area, w * h, 'area of the polygon', scale=scale**2)
    ensure_close(polygon.perimeter, 2 * (w + h), 'perimeter of the polygon', scale=scale)
    ensure_close(sum(e.length for e in r.edges), 2 * (w + h), 'lengths of the edges', scale=scale)
    return 'rectangle'


@check.facet(st.lists(gen.point_lattice, min_size=0, max_size=2), quick=50)
def degenerate(points):
    try:
        P(points)
    except ValueError:
        return 'refused'
    fail('a polygon of {} vertices is accepted', len(points))


@check.facet(st.tuples(st.one_of(shapes.simple_polygon(), gen.points(3, 7, gen.point_lattice)), scaling.exponent), quick=1000)
def scales(case):
    points, k = case

    def evaluate(*points):
        p = Polygon2D(*[Vector2D(x) for x in points])
        return dict(
            area=(2, lambda: p.area), perimeter=(1, lambda: p.perimeter), barycenter=(1, lambda: p.barycenter), center=(1, lambda: p.point_barycenter),
            is_simple=(0, lambda: bool(p.is_simple)), is_convex=(0, lambda: bool(p.is_convex)),
            is_clockwise=(0, lambda: bool(p.is_clockwise)), is_counterclockwise=(0, lambda: bool(p.is_counterclockwise)),
        )

    scaling.verify(evaluate, [tuple(p) for p in points], k)
    return 'scaled'


@check.facet(st.tuples(shapes.triangle(), scaling.exponent), quick=800)
def scaled_triangles(case):
    points, k = case

    def evaluate(*points):
        t = Triangle2D(*[Vector2D(x) for x in points])
        return dict(
            area=(2, lambda: t.area), perimeter=(1, lambda: t.perimeter),
            bisectors=(0, lambda: [t.bisector_vector0, t.bisector_vector1, t.bisector_vector2]),
            is_scalene=(0, lambda: bool(t.is_scalene)), is_isosceles=(0, lambda: bool(t.is_isosceles)), is_equilateral=(0, lambda: bool(t.is_equilateral)),
            is_obtuse=(0, lambda: bool(t.is_obtuse)), is_acute=(0, lambda: bool(t.is_acute)), is_oblique=(0, lambda: bool(t.is_oblique)),
        )

    scaling.verify(evaluate, [tuple(p) for p in points], k)
    return 'scaled'
