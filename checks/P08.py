"""P08 — points inside polygons, triangles and rectangles"""

from hypothesis import strategies as st

from Patro.GeometryEngine.Polygon import Polygon2D
from Patro.GeometryEngine.Rectangle import Rectangle2D
from Patro.GeometryEngine.Triangle import Triangle2D
from Patro.GeometryEngine.Vector import Vector2D

from pbt import gen, num, shapes
from pbt import scaling
from pbt.harness import Check, ensure, fail

check = Check(
    'P08',
    rule='Hypothesis generates simple polygons (both orientations, any starting vertex), triangles and rectangles, and points chosen near them: level with a vertex, '
         'on the grid of the vertices, near an edge, anywhere; the oracle is an exact even-odd rule on rationals.  Points on the boundary are skipped. '
         'A case is non-trivial when the point is in the box of the shape.',
    assumptions=['at most ten vertices', 'points on the boundary are not specified', 'points nearer than 1e-9 of an edge and off the lattice are skipped'],
)


@st.composite
def probe(draw, points):
    kind = draw(st.sampled_from(['level', 'grid', 'near edge', 'box', 'box', 'any']))
    xs, ys = [p[0] for p in points], [p[1] for p in points]
    if kind == 'level':
        return (draw(st.integers(int(min(xs)) - 2, int(max(xs)) + 2)) + draw(st.sampled_from([0., .5, .25])), draw(st.sampled_from(ys)))
    if kind == 'grid':
        return (draw(st.sampled_from(xs)), draw(st.sampled_from(ys)) + draw(st.sampled_from([0., .5, -.5])))
    if kind == 'near edge':
        i = draw(st.integers(0, len(points) - 1))
        x, y = num.lerp(points[i - 1], points[i], draw(gen.parameter))
        dx, dy = draw(st.sampled_from([(.125, 0.), (-.125, 0.), (0., .125), (0., -.125), (1e-3, 1e-3)]))
        return (x + dx, y + dy)
    if kind == 'box':
        return (min(xs) + (max(xs) - min(xs)) * draw(gen.parameter), min(ys) + (max(ys) - min(ys)) * draw(gen.parameter))
    return draw(gen.point_tame)


def with_probes(strategy):
    return strategy.flatmap(lambda points: st.tuples(st.just(points), st.lists(probe(points), min_size=1, max_size=6)))


def V(p):
    return Vector2D(p)


def decidable(p, points):
    if shapes.on_boundary(p, points):
        return False
    # rounding of the side test
    return min(num.distance_to_segment(p, points[i - 1], points[i]) for i in range(len(points))) > 1e-9


def verify(shape, variants, points, probes):
    label = None
    for p in probes:
        if not decidable(p, points):
            continue
        expected = shapes.is_inside(p, points)
        for variant in variants:
            obj = shape(*[V(q) for q in variant])
            result = obj.is_point_inside(V(p))
            ensure(bool(result) == expected, 'is_point_inside of {} in {}: {}', p, variant, result)
            # whatever was asked before
            for name in ('is_convex', 'is_clockwise', 'area', 'bounding_box', 'edges'):
                getattr(obj, name, None)
            result = obj.is_point_inside(V(p))
            ensure(bool(result) == expected, 'is_point_inside of {} in {} once its measures are known: {}', p, variant, result)
        xs, ys = [q[0] for q in points], [q[1] for q in points]
        if min(xs) <= p[0] <= max(xs) and min(ys) <= p[1] <= max(ys):
            label = ('inside' if expected else 'outside') + (' level with a vertex' if p[1] in ys else '')
    return label


@check.facet(with_probes(shapes.simple_polygon()), quick=2200, shards=4)
def polygons(case):
    points, probes = case
    k = len(points) // 2
    return verify(Polygon2D, (points, points[::-1], points[k:] + points[:k]), points, probes)


@check.facet(with_probes(shapes.simple_polygon()), quick=1500)
def crossing_number(case):
    """The alternative test agrees when it is available"""
    points, probes = case
    polygon = Polygon2D(*[V(q) for q in points])
    test = getattr(polygon, '_crossing_number_test', None)
    if test is None:
        return None
    label = None
    for p in probes:
        if decidable(p, points):
            expected = shapes.is_inside(p, points)
            ensure(bool(test(V(p))) == expected, 'crossing number test of {} in {}', p, points)
            label = label or ('inside' if expected else 'outside')
    return label


@check.facet(with_probes(shapes.triangle()), quick=3000)
def triangles(case):
    points, probes = case
    a, b, c = points
    label = verify(Triangle2D, (points, [b, c, a], [c, b, a]), points, probes)
    t = Triangle2D(V(a), V(b), V(c))
    # centre of mass of the vertices
    g = ((a[0] + b[0] + c[0]) / 3, (a[1] + b[1] + c[1]) / 3)
    ensure(bool(t.is_point_inside(V(g))), 'the barycentre of {} is outside', points)
    return label


@check.facet(st.tuples(gen.point_lattice, gen.point_lattice).flatmap(
    lambda pq: st.tuples(st.just(pq), st.lists(probe(list(pq) + [(pq[0][0], pq[1][1])]), min_size=1, max_size=6))), quick=2000)
def rectangles(case):
    (p, q), probes = case
    label = None
    for x, y in probes:
        (x0, x1), (y0, y1) = sorted((p[0], q[0])), sorted((p[1], q[1]))
        expected = x0 < x < x1 and y0 < y < y1
        if not expected and x0 <= x <= x1 and y0 <= y <= y1:
            continue
        for a, b in ((p, q), (q, p), ((p[0], q[1]), (q[0], p[1]))):
            result = Rectangle2D(V(a), V(b)).is_point_inside(V((x, y)))
            ensure(bool(result) == expected, 'is_point_inside of {} in the rectangle {}-{}: {}', (x, y), a, b, result)
        label = 'inside' if expected else 'outside'
    return label


@check.facet(st.tuples(shapes.simple_polygon(), gen.points(3, 6, gen.point_lattice), scaling.exponent), quick=800)
def scales(case):
    points, probes, k = case

    def evaluate(points, probes):
        shape = [Vector2D(x) for x in points]
        polygon = Polygon2D(*shape)
        result = {}
        for i, probe in enumerate(probes):
            probe = Vector2D(probe)
            result['polygon', i] = (0, lambda probe=probe: bool(polygon.is_point_inside(probe)))
            result['triangle', i] = (0, lambda probe=probe: bool(Triangle2D(*shape[:3]).is_point_inside(probe)))
            result['rectangle', i] = (0, lambda probe=probe: bool(Rectangle2D(*shape[:2]).is_point_inside(probe)))
        return result

    scaling.verify(evaluate, [[tuple(p) for p in points], probes], k)
    return 'scaled'
