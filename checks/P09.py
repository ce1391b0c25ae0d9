"""P09 — convex hull"""

from random import Random

from hypothesis import strategies as st

from Patro.GeometryEngine.Polygon import Polygon2D, ccw, convex_hull, is_three_point_ccw, is_three_point_collinear, is_three_point_cw
from Patro.GeometryEngine.Vector import Vector2D

from pbt import gen, num, shapes
from pbt.harness import Check, ensure, fail
from pbt.num import ensure_close, xy

check = Check(
    'P09',
    rule='Hypothesis generates sets of points with many duplicates and collinear triples (small lattice, points of one or two lines, circles, wide decimals) '
         'in a random order; the oracle is a monotone chain on rationals.  A case is non-trivial when a point is not a vertex of the hull, or the set has duplicates or collinear triples.',
    assumptions=['lattice or power of two coordinates when collinear triples are expected (the turn test is exact)', 'at most thirty points'],
)

_tiny = st.tuples(st.integers(0, 3).map(float), st.integers(0, 3).map(float))


@st.composite
def _cloud(draw):
    kind = draw(st.sampled_from(['tiny', 'lattice', 'lines', 'circle', 'tame', 'wide', 'copies']))
    if kind == 'tiny':
        points = draw(st.lists(_tiny, min_size=3, max_size=16))
    elif kind == 'lattice':
        points = draw(st.lists(gen.point_lattice, min_size=3, max_size=30))
    elif kind == 'lines':
        points = []
        for _ in range(draw(st.integers(1, 3))):
            x, y = draw(gen.point_lattice)
            dx, dy = draw(st.tuples(st.integers(-3, 3), st.integers(-3, 3)))
            points += [(x + k * dx, y + k * dy) for k in draw(st.lists(st.integers(-4, 4), min_size=1, max_size=6))]
    elif kind == 'circle':
        points = [(float(x), float(y)) for x, y in ((5, 0), (4, 3), (3, 4), (0, 5), (-3, 4), (-4, 3), (-5, 0), (-4, -3), (-3, -4), (0, -5), (3, -4), (4, -3))]
        points = draw(st.permutations(points))[:draw(st.integers(3, 12))] + draw(st.lists(gen.point_lattice, max_size=4))
    elif kind == 'tame':
        points = draw(st.lists(gen.point_tame, min_size=3, max_size=20))
    elif kind == 'wide':
        points = draw(st.lists(st.tuples(st.integers(-10**6, 10**6).map(float), st.integers(-10**6, 10**6).map(float)), min_size=3, max_size=20))
    else:
        points = draw(st.lists(_tiny, min_size=3, max_size=5)) * 3
    return draw(st.permutations(points))


def signed_area2(points):
    return 2 * shapes.signed_area_barycenter(points)[0]


@check.facet(st.tuples(_cloud(), st.integers(0, 9999)), quick=3500, shards=4)
def clouds(case):
    points, seed = case
    if len(points) < 3:
        return None
    expected = shapes.hull(points)
    if len(expected) < 3:
        return None   # all collinear
    result = convex_hull([Vector2D(p) for p in points])
    ensure(isinstance(result, Polygon2D), 'the hull of {} is a {}', points, type(result).__name__)
    hull = [xy(p) for p in result.points]
    ensure(len(hull) >= 3, 'hull of {} points', len(hull))
    ensure(set(hull) <= set(points), 'the hull {} has a vertex that is not a point of the set', hull)
    ensure(len(set(hull)) == len(hull), 'the hull {} has duplicated vertices', hull)
    turns = [shapes.orient(hull[i - 2], hull[i - 1], hull[i]) for i in range(len(hull))]
    # the turn test of floats is exact on a lattice
    exact = all(x == round(x * 64) / 64 and abs(x) < 2**22 for p in points for x in p)
    if exact:
        ensure(min(turns) >= 0, 'the hull {} of {} turns clockwise', hull, points)
        ensure(shapes.is_simple(hull), 'the hull {} is not simple', hull)
        ensure(set(expected) <= set(hull), 'the hull {} of {} lacks an extreme point of {}', hull, points, expected)
        for p in points:
            ensure(all(shapes.orient(hull[i - 1], hull[i], p) >= 0 for i in range(len(hull))), 'the point {} is out of the hull {}', p, hull)
        ensure(signed_area2(hull) == signed_area2(expected), 'area of the hull')
    else:
        scale = num.magnitude_of(*points)**2
        a, b = float(signed_area2(hull)), float(signed_area2(expected))
        ensure(a > 0 or b < 1e-9 * scale, 'the hull is clockwise')
        ensure_close(a, b, 'area of the hull', scale=scale)
        for p in points:
            for i in range(len(hull)):
                u, v = num.sub(hull[i], hull[i - 1]), num.sub(p, hull[i - 1])
                ensure(num.cross(u, v) >= -1e-9 * scale, 'the point {} is out of the hull {}', p, hull)
    lowest = min(points, key=lambda p: (p[1], p[0]))
    ensure(hull[0] == lowest, 'the hull starts at {} instead of the leftmost of the lowest points {}', hull[0], lowest)
    ensure(bool(result.is_convex) and not result.is_clockwise, 'flags of the hull')
    # order of the points
    shuffled = list(points)
    Random(seed).shuffle(shuffled)
    other = convex_hull([Vector2D(p) for p in shuffled])
    ensure([xy(p) for p in other.points] == hull or not exact, 'the hull depends on the order of the points')
    # as a list
    as_list = convex_hull([Vector2D(p) for p in points], as_polygon=False)
    ensure([xy(p) for p in as_list] == hull, 'hull as a list')
    # the hull of a hull is itself
    again = convex_hull(list(result.points))
    ensure([xy(p) for p in again.points] == hull or not exact, 'the hull of the hull is different')
    if len(set(points)) != len(points):
        return 'duplicates'
    return 'interior points' if len(expected) < len(points) else None


@check.facet(shapes.simple_polygon(), quick=1500)
def polygons(points):
    polygon = Polygon2D(*[Vector2D(p) for p in points])
    hull = polygon.convex_hull()
    vertices = [xy(p) for p in hull.points]
    expected = shapes.hull(points)
    scale = num.magnitude_of(*points)**2
    ensure_close(abs(float(signed_area2(vertices))), float(signed_area2(expected)), 'area of the hull of {}', points, scale=scale)
    ensure(set(vertices) <= set(points), 'vertices of the hull')
    ensure([xy(p) for p in polygon.points] == list(points), 'the polygon changed')
    convex = polygon.is_convex
    again = polygon.convex_hull()
    ensure_close(abs(float(signed_area2([xy(p) for p in again.points]))), float(signed_area2(expected)), 'area of the hull once convexity is known', scale=scale)
    return 'concave' if not convex else None


@check.facet(st.lists(st.tuples(st.integers(0, 2).map(float), st.integers(0, 2).map(float)), min_size=1, max_size=5), quick=800)
def degenerate(points):
    """Collinear sets and sets of less than three points: the end points, as a list"""
    expected = shapes.hull(points)
    if len(expected) >= 3:
        a, b = points[0], points[-1]
        points = [a, b, ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)]
    result = [xy(p) for p in (lambda h: h.points if isinstance(h, Polygon2D) else h)(convex_hull([Vector2D(p) for p in points]))]
    ends = {min(points), max(points)}
    ensure(set(result) == ends and len(result) == len(ends), 'hull of the collinear points {}: {}', points, result)
    return 'collinear' if len(ends) == 2 else None


@check.facet(st.lists(st.one_of(gen.point_lattice, gen.point_tame), min_size=3, max_size=3) | st.tuples(gen.point_lattice, gen.point_lattice, st.integers(-4, 4)).map(
    lambda c: [c[0], num.add(c[0], c[1]), num.add(c[0], num.mul(c[1], float(c[2])))]), quick=1500)
def turns(points):
    """Orientation of three points"""
    (ax, ay), (bx, by), (cx, cy) = map(shapes.F, points)
    exact = (bx - ax) * (cy - ay) - (by - ay) * (cx - ax)
    scale = max(1., num.magnitude_of(*points))
    lattice = all(float(x).is_integer() and abs(x) < 2**20 for p in points for x in p)
    if not lattice and abs(exact) < 1e-9 * scale ** 2:
        return None
    vectors = [Vector2D(p) for p in points]
    ensure(num.close(float(ccw(*vectors)), float(exact), scale ** 2), 'ccw of {}: {} instead of {}', points, ccw(*vectors), float(exact))
    got = tuple(bool(f(*vectors)) for f in (is_three_point_ccw, is_three_point_cw, is_three_point_collinear))
    ensure(got == (exact > 0, exact < 0, exact == 0), 'orientation of {}: {}', points, got)
    return 'collinear' if exact == 0 else 'turn'


_exponent = st.integers(-36, 20)
_lattice_cloud = st.one_of(st.lists(_tiny, min_size=3, max_size=12), st.lists(gen.point_lattice, min_size=3, max_size=16))


@check.facet(st.tuples(_lattice_cloud, _exponent, _exponent, st.sampled_from([0, 0, -6, -9, -12]), st.sampled_from([0, 0, 1, 2**20, -2**28]), st.integers(0, 9999)), quick=1500)
def scaled(case):
    # an axis scaling by powers of two, a shear and a translation that are exact in floats: the hull is the image of the hull
    points, kx, ky, shear, offset, seed = case
    slope = 2.**shear if shear else 0.

    def image(p):
        x, y = p
        return (x + offset) * 2.**kx, (y + slope * x + offset) * 2.**ky

    clouds = [image(p) for p in points]
    expected = shapes.hull(points)
    if len(expected) < 3:
        return None
    Random(seed).shuffle(clouds)
    result = convex_hull([Vector2D(p) for p in clouds])
    ensure(isinstance(result, Polygon2D), 'the hull of {} is a {}', clouds, type(result).__name__)
    hull = [xy(p) for p in result.points]
    ensure(set(hull) <= set(clouds) and len(set(hull)) == len(hull), 'vertices {} of the hull of {}', hull, clouds)
    images = [image(p) for p in expected]
    ensure(set(images) <= set(hull), 'the hull {} of {} lacks an extreme point of {}', hull, clouds, images)
    ensure(signed_area2(hull) == signed_area2(images), 'area of the hull {} of {}', hull, clouds)
    lowest = min(clouds, key=lambda p: (p[1], p[0]))
    ensure(hull[0] == lowest, 'the hull starts at {} instead of the leftmost of the lowest points {}', hull[0], lowest)
    return 'flat' if abs(kx - ky) > 10 or slope else 'scaled' if kx or ky else None
