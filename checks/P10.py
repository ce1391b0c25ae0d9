"""P10 — polylines, simplification of polygons and conversion to paths"""

import math

from hypothesis import strategies as st

from Patro.GeometryEngine.Polygon import Polygon2D
from Patro.GeometryEngine.Polyline import Polyline2D
from Patro.GeometryEngine.Rectangle import Rectangle2D
from Patro.GeometryEngine.Triangle import Triangle2D
from Patro.GeometryEngine.Vector import Vector2D

from pbt import gen, num, shapes
from pbt import scaling
from pbt.harness import Check, ensure, fail
from pbt.num import ensure_close, ensure_point, xy

check = Check(
    'P10',
    rule='Hypothesis generates polylines (repeated and collinear vertices included), points, simple polygons with flat angles, noisy outlines and thresholds; '
         'the oracle is arithmetic on pairs of floats and rationals.  A case is non-trivial when the polyline has at least three vertices, or when a vertex is removed.',
    assumptions=['at most twelve vertices for polylines, forty for simplification'],
)

_pt = st.one_of(gen.point_lattice, gen.point_tame)


def V(p):
    return Vector2D(p)


@check.facet(st.tuples(st.lists(_pt, min_size=2, max_size=12), _pt, st.integers(0, 10), gen.parameter), quick=3000)
def polylines(case):
    points, p, i, t = case
    polyline = Polyline2D(*[V(q) for q in points])
    scale = num.magnitude_of(p, *points)
    pairs = list(zip(points, points[1:]))
    ensure_close(polyline.length, sum(num.dist(a, b) for a, b in pairs), 'length of {}', points, scale=scale * len(points))
    ensure([(xy(e.p0), xy(e.p1)) for e in polyline.edges] == pairs, 'edges')
    ensure([(xy(e.p0), xy(e.p1)) for e in polyline.edges] == pairs, 'edges, asked twice')
    ensure_close(polyline.distance_to_point(V(p)), min(num.distance_to_segment(p, a, b) for a, b in pairs), 'distance of {} to {}', p, points, scale=scale)
    a, b = pairs[i % len(pairs)]
    ensure(float(polyline.distance_to_point(V(num.lerp(a, b, t)))) <= 1e-7 * scale, 'distance of a point of the polyline')
    ensure([xy(q) for q in polyline.points] == points and len(polyline) == len(points), 'vertices')
    ensure(not polyline.is_closed, 'a polyline is open')
    ensure_close(Polyline2D(*[V(q) for q in points[::-1]]).length, polyline.length, 'length of the reversed polyline', scale=scale * len(points))
    for n in range(1, len(points) + 1):
        nuplets = [[xy(q) for q in nuplet] for nuplet in polyline.iter_on_nuplets(n)]
        ensure(nuplets == [points[k:k + n] for k in range(len(points) - n + 1)], 'tuples of {} vertices', n)
    for n in (len(points) + 1, len(points) + 4):
        try:
            list(polyline.iter_on_nuplets(n))
        except ValueError:
            pass
        else:
            fail('tuples of {} vertices amongst {}', n, len(points))
    for n in (0, 1):
        try:
            Polyline2D(*[V(q) for q in points[:n]])
        except ValueError:
            pass
        else:
            fail('a polyline of {} vertices is accepted', n)
    if len(points) > 2:
        ensure(xy(polyline[1]) == points[1] and [xy(q) for q in polyline[1:]] == points[1:], 'indexing')
    path = polyline.to_path()
    vertices(path, points, False)
    return 'polyline' if len(points) > 2 else None


def vertices(path, points, closed):
    scale = num.magnitude_of(*points)
    expected = points + points[:1] if closed else points
    ensure_point(path.p0, points[0], 'start of the path')
    parts = list(path)
    ensure(len(parts) == len(expected) - 1, 'number of parts of the path of {}: {}', points, len(parts))
    for part, a, b in zip(parts, expected, expected[1:]):
        ensure_point(part.start_point, a, 'start of a part of the path', scale=scale)
        ensure_point(part.stop_point, b, 'end of a part of the path', scale=scale)
        g = part.geometry
        ensure_point(g.p0, a, 'geometry of the path', scale=scale)
        ensure_point(g.p1, b, 'geometry of the path', scale=scale)
    ensure(path.is_closed == closed, 'closure of the path')


@check.facet(st.tuples(shapes.simple_polygon(), shapes.triangle(), _pt, _pt), quick=1000)
def paths(case):
    polygon, triangle, p, q = case
    vertices(Polygon2D(*[V(x) for x in polygon]).to_path(), polygon, True)
    vertices(Triangle2D(*[V(x) for x in triangle]).to_path(), triangle, True)
    vertices(Rectangle2D(V(p), V(q)).to_path(), [p, (p[0], q[1]), q, (q[0], p[1])], True)
    return 'paths'


@st.composite
def _outline(draw):
    """Outline with more vertices than necessary"""
    points = draw(shapes.simple_polygon())
    cuts = draw(st.sampled_from([1, 2, 4]))
    noise = draw(st.sampled_from([0, 0, 1, 4]))
    result = []
    for i in range(len(points)):
        a, b = points[i], points[(i + 1) % len(points)]
        for k in range(cuts):
            x, y = num.lerp(a, b, k / cuts)
            if k and noise:
                x += draw(st.integers(-noise, noise)) / 64
                y += draw(st.integers(-noise, noise)) / 64
            result.append((x, y))
    # without null edges, which have no direction
    result = [p for i, p in enumerate(result) if p != result[i - 1]]
    if noise and not shapes.is_simple(result):
        result = [p for i, p in enumerate(points) if p != points[i - 1]]
    k = draw(st.integers(0, len(result) - 1))
    return result[k:] + result[:k]


def deviation(p, a, b):
    n = num.dist(a, b)
    return abs(num.cross(num.sub(b, a), num.sub(p, a))) / n if n else math.inf


@check.facet(st.tuples(_outline(), st.sampled_from([0., 0., 1e-3, .02, .1, .5])), quick=1200, shards=4)
def simplification(case):
    points, threshold = case
    n = len(points)
    polygon = Polygon2D(*[V(p) for p in points])
    try:
        result = polygon.simplify(threshold)
    except ValueError:
        result = None
    ensure([xy(p) for p in polygon.points] == points, 'the polygon changed')
    if result is None:
        # nothing is left
        ensure(threshold > 0, 'the polygon {} has vanished', points)
        return None
    kept_points = [xy(p) for p in result.points]
    # subsequence: greedy match
    kept = []
    i = 0
    for p in kept_points:
        while i < n and points[i] != p:
            i += 1
        ensure(i < n, 'the vertices {} are not a subsequence of {}', kept_points, points)
        kept.append(i)
        i += 1
    if len(set(points)) != n:   # the match is ambiguous
        ensure(threshold > 0 or set(kept_points) <= set(points), 'vertices')
    else:
        removed = [i for i in range(n) if i not in kept]
        tolerance = threshold * (1 + 1e-9) + 1e-9 * num.magnitude_of(*points)
        for r in removed:
            if r:
                before = max([i for i in kept if i < r] + [0])
                after = points[(r + 1) % n]
                d = deviation(points[r], points[before], after)
                ensure(d <= tolerance, 'the vertex {} of {} at {} of the line is removed for the threshold {}', r, points, d, threshold)
            else:
                candidates = [deviation(points[0], points[kept[-1]], points[1 % n]), deviation(points[0], points[kept[-1]], points[kept[0]])]
                ensure(min(candidates) <= tolerance, 'the first vertex of {} at {} is removed for the threshold {}', points, candidates, threshold)
        for i in kept:
            if i:
                before = max([k for k in kept if k < i] + [0])
                d = deviation(points[i], points[before], points[(i + 1) % n])
                ensure(d >= threshold * (1 - 1e-9) - 1e-9 * num.magnitude_of(*points), 'the vertex {} of {} at {} of the line is kept for the threshold {}', i, points, d, threshold)
    if not threshold:
        scale = num.magnitude_of(*points)**2
        a = float(shapes.signed_area_barycenter(points)[0])
        b = float(shapes.signed_area_barycenter(kept_points)[0])
        ensure_close(b, a, 'area of the simplified outline {} of {}', kept_points, points, scale=scale)
        if shapes.is_dyadic(points):
            extreme = shapes.hull(points)
            ensure(set(extreme) <= set(kept_points), 'a corner of {} is removed: {}', points, kept_points)
            for p in points:
                ensure(shapes.on_boundary(p, kept_points), 'the outline {} changed: {} is out of {}', points, p, kept_points)
    return 'simplified' if len(kept) < n else None


@check.facet(st.tuples(st.one_of(shapes.simple_polygon(), gen.points(3, 8, gen.point_lattice)), gen.point_tame, gen.positive, scaling.exponent), quick=800)
def scales(case):
    points, probe, threshold, k = case

    def simplified(polygon, threshold):
        result = polygon.simplify(threshold)
        return None if result is None else list(result.points)

    def evaluate(points, probe, threshold):
        polyline, polygon = [cls(*[Vector2D(x) for x in points]) for cls in (Polyline2D, Polygon2D)]
        return dict(
            length=(1, lambda: polyline.length), distance=(1, lambda: polyline.distance_to_point(Vector2D(probe))),
            outline=(1, lambda: polygon.distance_to_point(Vector2D(probe))),
            simplified=(1, lambda: simplified(polygon, threshold)),
            path=(1, lambda: polyline.to_path()[0].stop_point),
        )

    scaling.verify(evaluate, [[tuple(p) for p in points], probe, threshold], k)
    return 'scaled'
