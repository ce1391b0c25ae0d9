"""P03 — geometric primitives: transforms, copies and coherence of the reported quantities"""

import math
from random import Random

from hypothesis import strategies as st

from Patro.GeometryEngine.Bezier import CubicBezier2D, QuadraticBezier2D
from Patro.GeometryEngine.Line import Line2D
from Patro.GeometryEngine.Polygon import Polygon2D, RegularPolygon, convex_hull
from Patro.GeometryEngine.Polyline import Polyline2D
from Patro.GeometryEngine.Rectangle import Rectangle2D
from Patro.GeometryEngine.Segment import Segment2D
from Patro.GeometryEngine.Transformation import AffineTransformation2D, Transformation2D
from Patro.GeometryEngine.Triangle import Triangle2D
from Patro.GeometryEngine.Vector import Vector2D

from pbt import gen, num, shapes
from pbt.harness import Check, ensure, fail
from pbt import maps
from pbt.num import ensure_close, ensure_point, xy

check = Check(
    'P03',
    rule='Hypothesis generates a primitive and a history of transformations (in place or on a copy), copies, reversals and queries on a pool of '
         'objects; each object is compared to a list of reference points and, when queried, to a fresh primitive built from its current points. '
         'A case is non-trivial when the history transforms in place an object that was queried or copied before.',
    assumptions=['invertible transformations', 'at most ten operations'],
)

KINDS = dict(
    segment=Segment2D, rectangle=Rectangle2D, triangle=Triangle2D, polyline=Polyline2D, polygon=Polygon2D, hull=Polygon2D,
    quadratic=QuadraticBezier2D, cubic=CubicBezier2D,
)

_pt = st.one_of(gen.point_lattice, gen.point_tame)


def distinct(n):
    return st.lists(_pt, min_size=n, max_size=n, unique=True)


_primitive = st.one_of(
    st.tuples(st.just('segment'), distinct(2)),
    st.tuples(st.just('rectangle'), distinct(2)),
    st.tuples(st.just('triangle'), shapes.triangle()),
    st.tuples(st.just('polyline'), st.lists(_pt, min_size=2, max_size=6)),
    st.tuples(st.just('polygon'), shapes.simple_polygon()),
    st.tuples(st.just('polygon'), st.lists(gen.point_lattice, min_size=3, max_size=6)),
    st.tuples(st.just('polygon'), shapes.simple_polygon().map(lambda points: points + points[:1])),
    st.tuples(st.just('hull'), shapes.convex_polygon()),
    st.tuples(st.just('quadratic'), distinct(3)),
    st.tuples(st.just('cubic'), distinct(4)),
)

_factor = st.sampled_from([2., -1., -2., 3., .5, 1.])
_map = st.one_of(
    st.tuples(st.just('mirror')),
    st.tuples(st.just('x_mirror')),
    st.tuples(st.just('y_mirror')),
    st.tuples(st.just('rotate'), gen.angle),
    st.tuples(st.just('scale'), _factor, _factor),
    st.tuples(st.just('scale1'), _factor),
    st.tuples(st.just('translation'), gen.point_tame),
    st.tuples(st.just('rotation_at'), gen.point_lattice, gen.angle),
    st.tuples(st.just('shear'), st.sampled_from([(1., 1., 0., 1.), (2., -1., 1., 1.), (0., 1., 1., 0.)])),
    st.tuples(st.just('identity')),
)

_operation = st.one_of(
    st.tuples(st.sampled_from(['in place', 'in place', 'copy']), st.integers(0, 3), _map),
    st.tuples(st.sampled_from(['clone', 'reverse', 'query', 'query']), st.integers(0, 3), st.none()),
)


def image(m, p):
    name = m[0]
    x, y = p
    if name == 'mirror':
        return (-x, -y)
    if name == 'x_mirror':
        return (-x, y)
    if name == 'y_mirror':
        return (x, -y)
    if name == 'rotate':
        return num.rotate(p, m[1])
    if name == 'scale':
        return (x * m[1], y * m[2])
    if name == 'scale1':
        return (x * m[1], y * m[1])
    if name == 'translation':
        return num.add(p, m[1])
    if name == 'rotation_at':
        return num.rotate(p, m[2], m[1])
    if name == 'shear':
        a, b, c, d = m[1]
        return (a * x + b * y, c * x + d * y)
    return p


def transform(obj, m, clone):
    name = m[0]
    if name in ('mirror', 'x_mirror', 'y_mirror'):
        return getattr(obj, name)(clone=clone)
    if name == 'rotate':
        return obj.rotate(m[1], clone=clone)
    if name == 'scale':
        return obj.scale(m[1], m[2], clone=clone)
    if name == 'scale1':
        return obj.scale(m[1], clone=clone)
    if name == 'translation':
        return obj.transform(AffineTransformation2D.Translation(Vector2D(m[1])), clone)
    if name == 'rotation_at':
        return obj.transform(AffineTransformation2D.RotationAt(Vector2D(m[1]), m[2]), clone=clone)
    if name == 'shear':
        return obj.transform(Transformation2D(list(m[1])), clone=clone)
    return obj.transform(Transformation2D.Identity(), clone=clone)


def plain(value):
    if value is None or isinstance(value, (bool, int, float, str)):
        return value
    if hasattr(value, 'dtype') and not hasattr(value, 'x'):
        return value.tolist()
    if isinstance(value, Vector2D) or hasattr(value, 'magnitude_square'):
        return xy(value)
    if isinstance(value, Line2D):
        return (xy(value.p), xy(value.v))
    if hasattr(value, 'inf'):
        return (float(value.inf), float(value.sup))
    if hasattr(value, 'x') and hasattr(value.x, 'inf'):
        return (plain(value.x), plain(value.y))
    if hasattr(value, 'points'):
        return (type(value).__name__, [xy(p) for p in value.points])
    return [plain(x) for x in value]


_common = ['number_of_points', 'start_point', 'end_point', 'bounding_box', 'point_array', 'is_closed', 'is_reversible', 'is_infinite', 'dimension']
_closed = ['closed_points', 'closed_pairwise_points', 'closed_point_array']
OBSERVED = dict(
    segment=_common + ['vector', 'direction', 'length', 'center', 'cross_product'],
    rectangle=_common + _closed + ['p01', 'p10', 'edges', 'diagonal', 'perimeter', 'area'],
    triangle=_common + _closed + ['edges', 'bisector_vector0', 'bisector_vector1', 'bisector_vector2', 'bisector_line0', 'perimeter', 'area',
                                  'is_equilateral', 'is_scalene', 'is_isosceles', 'is_obtuse', 'is_acute'],
    polyline=_common + ['edges', 'length'],
    polygon=_common + _closed + ['is_triangle', 'edges', 'number_of_edges', 'is_simple', 'is_convex', 'is_concave', 'perimeter', 'point_barycenter',
                                 'area', 'is_clockwise', 'is_counterclockwise', 'barycenter', 'axes'],
    quadratic=_common + ['length', 'tangent0'],
    cubic=_common + ['length', 'area', 'tangent1'],
)
OBSERVED['hull'] = OBSERVED['polygon']


def axes(polygon):
    if not polygon.is_simple:
        return None
    return (polygon.major_axis, polygon.minor_axis, polygon.major_axis_angle, polygon.axis_ratio)


def observe(kind, obj, name):
    try:
        if name == 'axes':
            return axes(obj)
        return plain(getattr(obj, name))
    except (ZeroDivisionError, NameError) as exception:   # e.g. tangent on a null vector
        return type(exception).__name__


def methods(kind, obj):
    """Quantities that take an argument"""
    probe = Vector2D(1.25, -.75)
    result = []
    if kind in ('segment', 'quadratic', 'cubic'):
        result += [('point_at_t', t, xy(obj.point_at_t(t))) for t in (0, .25, 1)]
    if kind in ('segment', 'polyline'):
        result.append(('distance_to_point', obj.distance_to_point(probe)))
    if kind == 'segment':
        result.append(('side_of', obj.side_of(probe)))
    if kind in ('polygon', 'hull', 'triangle', 'rectangle'):
        result.append(('is_point_inside', bool(obj.is_point_inside(probe))))
    return result


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or num.close(a, b, rtol=1e-12, atol=1e-12) or (math.isnan(a) and math.isnan(b))
    return a == b


def verify(kind, obj, what, order=None):
    """The object reports what a fresh primitive made of its points reports"""
    points = [xy(p) for p in obj.points]
    try:
        fresh = KINDS[kind](*[Vector2D(p) for p in points])
    except ValueError:   # nearly flat triangle
        return
    names = list(OBSERVED[kind])
    if order:
        order.shuffle(names)
    for name in names:
        # a fresh one for each quantity: the order of the queries does not matter
        a, b = observe(kind, obj, name), observe(kind, KINDS[kind](*[Vector2D(p) for p in points]), name)
        ensure(same(a, b), '{} of a {} after {}: {} but a fresh one made of the points {} gives {}', name, kind, what, a, points, b)
    a, b = methods(kind, obj), methods(kind, fresh)
    ensure(same(a, b), 'a {} after {}: {} but a fresh one made of the points {} gives {}', kind, what, a, points, b)


def structure(kind, obj, model):
    """Facts of a primitive that are not computed by the code under test"""
    ensure(obj.number_of_points == len(model) and len(obj) == len(model), 'number of points')
    scale = num.magnitude_of(*model)
    ensure_point(obj.start_point, model[0], 'start point', scale=scale)
    ensure_point(obj.end_point, model[-1], 'end point', scale=scale)
    array = obj.point_array
    ensure(array.shape == (2, len(model)), 'point array of shape {}', array.shape)
    ensure(obj.is_closed == (kind in ('rectangle', 'triangle', 'polygon', 'hull')), 'is_closed of a {}', kind)
    ensure(obj.is_reversible is True, 'is_reversible')
    ensure(not obj.is_infinite and obj.dimension == 2 and not obj.is_composed, 'kind of primitive')
    (x0, y0), (x1, y1) = model[0], model[-1]
    vertices = [(x0, y0), (x0, y1), (x1, y1), (x1, y0)] if kind == 'rectangle' else model
    if obj.is_closed:
        closed = [xy(p) for p in obj.closed_points]
        ensure(len(closed) == len(vertices) + 1, 'closed points')
        for p, q in zip(closed, vertices + vertices[:1]):
            ensure(num.pclose(p, q, scale), 'closed point {} instead of {}', p, q)
        pairs = [(xy(p), xy(q)) for p, q in obj.closed_pairwise_points]
        ensure(pairs == list(zip(closed[:-1], closed[1:])), 'closed pairs')
        ensure(obj.closed_point_array.shape == (2, len(closed)), 'closed point array')
    if kind in ('rectangle', 'triangle', 'polygon', 'hull', 'polyline'):
        edges = [(xy(e.p0), xy(e.p1)) for e in obj.edges]
        expected = list(zip(vertices, vertices[1:] + vertices[:1]))
        if kind == 'polyline':
            expected.pop()
        ensure(len(edges) == len(expected), 'number of edges of {}: {}', vertices, edges)
        for (p, q), (r, s) in zip(edges, expected):
            ensure(num.pclose(p, r, scale) and num.pclose(q, s, scale), 'edge {} instead of {}', (p, q), (r, s))
    if kind == 'segment':
        ensure_point(obj.vector, num.sub(model[1], model[0]), 'vector of a segment', scale=scale)
        ensure_close(obj.length, num.dist(*model), 'length of a segment', scale=scale)
        ensure_point(obj.center, num.lerp(model[0], model[1], .5), 'centre of a segment', scale=scale)


####################################################################################################

@check.facet(st.tuples(_primitive, st.lists(_operation, min_size=1, max_size=10), st.integers(0, 9999)), quick=1300, shards=4)
def histories(case):
    (kind, points), operations, seed = case
    random = Random(seed)
    sources = [Vector2D(p) for p in points]
    if kind == 'hull':
        first = convex_hull(sources)
        points = [xy(p) for p in first.points]
    else:
        first = KINDS[kind](*sources)
    for source in sources:   # the primitive has its own points
        source *= 3
        source += Vector2D(1, 1)
    pool = [first]
    models = [list(points)]
    queried = set()
    copied = set()
    label = None

    def ensure_pool(what):
        for obj, model in zip(pool, models):
            current = list(obj.points)
            ensure(len(current) == len(model), 'number of points after {}', what)
            scale = num.magnitude_of(*model)
            for p, q in zip(current, model):
                ensure_point(p, q, '{} after {}'.format(kind, what), scale=scale, rtol=1e-9)

    ensure_pool('construction')
    structure(kind, first, points)
    for step, i, m in operations:
        i %= len(pool)
        obj, model = pool[i], models[i]
        what = (step, i, m)
        if max(abs(x) for p in model for x in p) > 1e6:
            break
        if step == 'in place':
            result = transform(obj, m, False)
            ensure(result is obj, 'an in-place transformation returned another object')
            models[i] = [image(m, p) for p in model]
            if m[0] != 'identity':
                if i in queried:
                    label = 'transformed after a query'
                elif i in copied and label is None:
                    label = 'transformed after a copy'
        elif step == 'query':
            verify(kind, obj, what, random)
            structure(kind, obj, model)
            queried.add(i)
        else:
            if step == 'copy':
                new, new_model = transform(obj, m, True), [image(m, p) for p in model]
            elif step == 'clone':
                new, new_model = obj.clone(), list(model)
            else:
                new, new_model = obj.reverse(), model[::-1]
            ensure(new is not obj, '{} returned the object itself', step)
            ensure(type(new) is type(obj), '{} returned a {}', step, type(new).__name__)
            copied.add(i)
            if len(pool) < 4:
                pool.append(new)
                models.append(new_model)
                j = len(pool) - 1
            else:
                j = (i + 1) % 4
                pool[j], models[j] = new, new_model
                queried.discard(j)
            copied.add(j)
        ensure_pool(what)
    for obj, model in zip(pool, models):
        verify(kind, obj, operations, random)
        structure(kind, obj, model)
    # equality compares the points
    for a, p in zip(pool, models):
        ensure(a == a.clone(), 'a clone is equal to its source')
        ensure(a.is_point_close(a.clone()), 'a clone is close to its source')
        reverse = a.reverse()
        if p != p[::-1] and max(num.dist(x, y) for x, y in zip(p, p[::-1])) > 1e-3:
            ensure(not a == reverse, 'a reversed primitive is equal to its source')
    # copies do not share their points
    for k, obj in enumerate(pool):
        for p in obj.points:
            p *= 2
        models[k] = [num.mul(p, 2) for p in models[k]]
        ensure_pool('moving the points of the object {}'.format(k))
    return label


@check.facet(st.tuples(gen.point_tame, gen.point_tame, gen.nonzero_point(gen.point_tame)), quick=600)
def rectangles_and_lines(case):
    p, q, v = case
    for r, expected in ((Rectangle2D.from_point_and_offset(Vector2D(p), Vector2D(v)), (p, num.add(p, v))),
                        (Rectangle2D.from_point_and_radius(Vector2D(p), Vector2D(v)), (num.sub(p, v), num.add(p, v)))):
        ensure_point(r.p0, expected[0], 'first corner')
        ensure_point(r.p1, expected[1], 'second corner')
        ensure_point(r.p01, (expected[0][0], expected[1][1]), 'corner p01')
        ensure_point(r.p10, (expected[1][0], expected[0][1]), 'corner p10')
        ensure_point(r.diagonal, num.sub(expected[1], expected[0]), 'diagonal')
        polygon = r.to_polygon()
        ensure([xy(x) for x in polygon.points] == [xy(x) for x in (r.p0, r.p01, r.p1, r.p10)], 'polygon of a rectangle')
    line = Line2D(Vector2D(p), Vector2D(v))
    copy = line.clone()
    copy.p += Vector2D(1, 2)
    copy.v *= 2
    ensure(xy(line.p) == p and xy(line.v) == v, 'the clone of a line shares its vectors with the source')
    line = Line2D.from_two_points(Vector2D(p), Vector2D(num.add(p, v)))
    ensure_point(line.p, p, 'line from two points')
    ensure_point(line.v, v, 'line from two points', scale=num.magnitude_of(p, v), rtol=1e-12)
    return 'generic' if all(p) and all(v) else None


@check.facet(st.tuples(gen.point_tame, gen.positive, st.integers(3, 24), gen.angle), quick=600)
def regular_polygons(case):
    center, radius, n, angle = case
    polygon = RegularPolygon(Vector2D(center), radius, n, angle)
    other = polygon.clone()
    scale = num.magnitude_of(center, (radius, 0))
    for obj in (polygon, other):
        points = [xy(p) for p in obj.points]
        ensure(len(points) == n and obj.number_of_edges == n, 'number of edges')
        for i, p in enumerate(points):
            ensure(num.pclose(p, num.add(center, num.polar(radius, angle + 360 * i / n)), scale), 'vertex {} of {}: {}', i, case, p)
        ensure_point(obj.circumcircle.center, center, 'centre')
        ensure_close(obj.circumcircle.radius, radius, 'radius')
        ensure_close(obj.perimeter, 2 * n * radius * math.sin(math.pi / n), 'perimeter', scale=scale)
        ensure_close(obj.edge_angle, 360 / n, 'edge angle')
    names = {3: 'triangle', 4: 'quadrilateral', 5: 'pentagon', 6: 'hexagon', 8: 'octagon', 10: 'decagon', 12: 'dodecagon', 20: 'icosagon', 24: 'icositetragon'}
    if n in names:
        ensure(polygon.str_name == names[n], 'name of a polygon of {} edges: {}', n, polygon.str_name)
    try:
        RegularPolygon(Vector2D(center), radius, n % 3, angle)
    except ValueError:
        pass
    else:
        fail('a regular polygon of {} edges', n % 3)
    return 'regular polygon'


_step = st.one_of(st.tuples(st.sampled_from(['in place', 'copy']), maps.similarity), st.tuples(st.sampled_from(['clone', 'reverse', 'recenter', 'shear']), maps.shear))


def same_regular(obj, points, center, radius, scale):
    got = [xy(p) for p in obj.points]
    ensure(len(got) == len(points) and all(num.pclose(p, q, scale, 1e-8, 1e-8) for p, q in zip(got, points)), 'vertices {} instead of {}', got, points)
    ensure_point(obj.center, center, 'centre', scale=scale, rtol=1e-8, atol=1e-8)
    ensure_close(obj.radius, radius, 'radius', scale=scale, rtol=1e-8, atol=1e-8)
    ensure(num.pclose(num.add(center, num.polar(radius, obj.angle)), points[0], scale, 1e-7, 1e-7), 'the angle {} is not the one of the first vertex {} around {}', obj.angle, points[0], center)
    circle = obj.circumcircle
    ensure(num.pclose(xy(circle.center), center, scale, 1e-8, 1e-8), 'centre of the circle')
    ensure_close(circle.radius, radius, 'radius of the circle', scale=scale, rtol=1e-8, atol=1e-8)


@check.facet(st.tuples(gen.point_tame, st.sampled_from([1., .25, 10., 3.7]), st.integers(3, 9), gen.angle, st.lists(_step, min_size=1, max_size=6)), quick=800)
def regular_polygon_maps(case):
    """Regular polygons stay regular around their centre"""
    center, radius, n, angle, steps = case
    points = [num.add(center, num.polar(radius, angle + 360 * i / n)) for i in range(n)]
    pool = [(RegularPolygon(Vector2D(center), radius, n, angle), points, center, radius)]
    label = None
    # rounding errors of the largest coordinates remain when it is moved to the origin
    reach = num.magnitude_of(center, *points)
    for operation, m in steps:
        obj, points, center, radius = pool[-1]
        if operation == 'clone':
            pool.append((obj.clone(), points, center, radius))
        elif operation == 'reverse':
            pool.append((obj.reverse(), points[::-1], center, radius))
        elif operation == 'recenter':
            obj.recenter()
            pool[-1] = (obj, [num.sub(p, center) for p in points], (0., 0.), radius)
        elif operation == 'shear':
            try:
                obj.transform(maps.build(m))
            except ValueError:
                pass
            else:
                fail('a regular polygon is sheared by {}', m)
        else:
            images = [maps.image(m, p) for p in points]
            factor = num.dist(maps.image(m, (1., 0.)), maps.image(m, (0., 0.)))
            transformed = obj.transform(maps.build(m), clone=operation == 'copy')
            item = (transformed, images, maps.image(m, center), radius * factor)
            if operation == 'copy':
                pool.append(item)
            else:
                pool[-1] = item
            label = 'reflection' if maps.is_reflection(m) else label or 'map'
        reach = max(reach, num.magnitude_of(pool[-1][2], *pool[-1][1]))
        for item in pool:
            same_regular(*item, reach)
    return label


_simple = st.sampled_from(['segment', 'rectangle', 'triangle', 'quadratic', 'cubic', 'polyline', 'polygon'])
_counts = dict(segment=2, rectangle=2, triangle=3, quadratic=3, cubic=4)


@st.composite
def _pairs(draw):
    """A kind, two lists of points which are equal or differ somewhere"""
    kind = draw(_simple)
    n = _counts.get(kind) or draw(st.integers(3, 6))
    points = draw(shapes.triangle()) if kind == 'triangle' else draw(distinct(n))
    mode = draw(st.sampled_from(['equal', 'ulp', 'near', 'far', 'apart', 'apart', 'swap', 'shorter']))
    i, axis = draw(st.integers(0, n - 1)), draw(st.integers(0, 1))
    return kind, points, mode, i, axis


@check.facet(_pairs(), quick=600)
def equality(case):
    """Equal when all the points are, close when all are close"""
    kind, points, mode, i, axis = case
    others, close = list(points), True
    if mode == 'swap':
        others = others[1:] + others[:1]
        gap = max(abs(x - y) for p, q in zip(points, others) for x, y in zip(p, q))
        close = None if gap < 1e-3 * max(1., num.magnitude_of(*points)) else False
    elif mode == 'shorter':
        if kind not in ('polyline', 'polygon') or len(points) == 3:
            return None
        others = others[:-1]
    elif mode != 'equal':
        p = list(others[i])
        p[axis] = math.nextafter(p[axis], 1e9) if mode == 'ulp' else p[axis] + (1e-10 if mode == 'near' else .25 * max(1., num.magnitude_of(*points)) if mode == 'far' else 5e-4 * max(1., num.magnitude_of(*points)))
        others[i] = tuple(p)
        close = mode not in ('far', 'apart')
    try:
        a, b = (KINDS[kind](*[Vector2D(p) for p in x]) for x in (points, others))
    except ValueError:   # nearly flat triangle
        return None
    equal = [tuple(p) for p in points] == [tuple(p) for p in others]
    ensure(bool(a == b) == equal and bool(b == a) == equal and bool(a != b) == (not equal), '{} of {} and {}: equal {}', kind, points, others, a == b)
    if mode != 'shorter' and close is not None:
        ensure(bool(a.is_point_close(b)) == close, '{} of {} and {}: close {}', kind, points, others, a.is_point_close(b))
    return mode


@check.facet(st.tuples(st.sampled_from(['segment', 'rectangle', 'triangle', 'quadratic', 'cubic']).flatmap(
    lambda kind: st.tuples(st.just(kind), shapes.triangle() if kind == 'triangle' else distinct(_counts[kind]), st.lists(st.tuples(st.integers(0, _counts[kind] - 1), _pt, st.booleans()), min_size=1, max_size=5)))), quick=500)
def setters(case):
    """Points are replaced one at a time, quantities follow"""
    (kind, points, edits), = case
    obj, model, other = KINDS[kind](*[Vector2D(p) for p in points]), list(points), KINDS[kind](*[Vector2D(p) for p in points])
    copy = obj.clone()
    for i, p, query in edits:
        if query:
            verify(kind, obj, 'the construction')
        vector = Vector2D(p)
        setattr(obj, 'p{}'.format(i), vector)
        model[i] = p
        vector += Vector2D(1, 1)
        found = [xy(x) for x in obj.points]
        ensure(found == [tuple(x) for x in model], 'points {} of a {} instead of {}', found, kind, model)
        ensure(xy(getattr(obj, 'p{}'.format(i))) == tuple(p), 'p{} of a {}', i, kind)
        ensure(all(copy.__class__ is x.__class__ and [xy(q) for q in x.points] == [tuple(q) for q in points] for x in (copy, other)), 'another {} is changed', kind)
        if len(set(model)) == len(model) and (kind != 'triangle' or abs(shapes.signed_area_barycenter(model)[0]) > 1e-6):
            verify(kind, obj, 'p{} = {}'.format(i, p))
            structure(kind, obj, model)
    return kind
