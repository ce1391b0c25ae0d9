"""P32 — The graphic scene keeps, orders, finds and removes exactly its items"""

import math

from hypothesis import strategies as st

from IntervalArithmetic import Interval2D
from Patro.GeometryEngine.Bezier import CubicBezier2D, QuadraticBezier2D
from Patro.GeometryEngine.Conic import AngularDomain, Circle2D, Ellipse2D
from Patro.GeometryEngine.Path import Path2D
from Patro.GeometryEngine.Polygon import Polygon2D
from Patro.GeometryEngine.Polyline import Polyline2D
from Patro.GeometryEngine.Rectangle import Rectangle2D
from Patro.GeometryEngine.Segment import Segment2D
from Patro.GeometryEngine.Spline import BSpline2D
from Patro.GeometryEngine.Transformation import AffineTransformation2D
from Patro.GeometryEngine.Triangle import Triangle2D
from Patro.GeometryEngine.Vector import Vector2D
from Patro.GraphicEngine.GraphicScene.GraphicStyle import Font, GraphicPathStyle
from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene

from checks import P18, P24
from pbt import gen, num, paths, svgdata
from pbt.harness import Check, ensure, fail
from pbt.num import ensure_point, xy

check = Check(
    'P32',
    rule='Hypothesis generates histories of up to 40 operations on a scene: additions of items of every kind, removals, depth, visibility, selection, coordinates moved and items marked '
         'dirty, queries by user data, box and distance.  The oracle is a list of plain records, with geometries made afresh.  The primitives added to a scene are compared by '
         'sampled points.  A case is non-trivial when an item is removed and a query finds an item, or a primitive has a non-trivial transformation.',
    assumptions=['the index of the boxes is updated before a query', 'items are marked dirty when a coordinate they use is moved',
                 'the transformation of the scene applies to positions, not to radii', 'distances to elliptical arcs are not tested (see P12)',
                 'arcs of a path added as one item are approximated by cubic curves, up to 1e-3 of the radius'],
)

STYLE = GraphicPathStyle()
FONT = Font('Arial', 10)

NAMES = ('A', 'B', 'C', 'D')
SIZES = dict(segment=2, circle=1, arc=1, ellipse=1, polyline=None, polygon=None, rectangle=2, image=2, quadratic_bezier=3, cubic_bezier=4, text=1)

_point = st.one_of(gen.point_lattice, gen.point_lattice, gen.point_tame.map(lambda p: (p[0] / 10, p[1] / 10)))
_position = st.one_of(_point, _point, st.sampled_from(NAMES))
_matrix = st.one_of(st.just(svgdata.IDENTITY), svgdata.transform.map(lambda t: svgdata.matrix_of(*t)),
                    st.tuples(svgdata.transform, svgdata.transform).map(lambda l: svgdata.matrix_of_list(l)))


def image(matrix, p):
    a, b, c, d, e, f = matrix
    return (a * p[0] + c * p[1] + e, b * p[0] + d * p[1] + f)


def transformation_of(matrix):
    if matrix == svgdata.IDENTITY:
        return None
    a, b, c, d, e, f = matrix
    return AffineTransformation2D([a, c, e, b, d, f, 0, 0, 1])


@st.composite
def item(draw):
    kind = draw(st.sampled_from(sorted(SIZES)))
    size = SIZES[kind] or draw(st.integers(3, 5))
    positions = [draw(_position) for _ in range(size)]
    extra = ()
    if kind in ('circle', 'arc', 'ellipse'):
        extra = (draw(st.integers(1, 40)) / 4,)
        if kind == 'ellipse':
            extra += (draw(st.integers(1, 40)) / 4, draw(gen.angle))
        elif kind == 'arc':
            start = draw(st.integers(-180, 180))
            extra += (start, start + draw(st.integers(10, 350)))
    return (kind, positions, extra, draw(st.sampled_from([None, 0, 1, 2])))


operation = st.one_of(
    st.tuples(st.just('add'), item()), st.tuples(st.just('add'), item()), st.tuples(st.just('add'), item()),
    st.tuples(st.just('remove'), st.integers(0, 50)),
    st.tuples(st.just('z'), st.integers(0, 50), st.sampled_from([0, 1, -1, 5, .5, 10])),
    st.tuples(st.just('visible'), st.integers(0, 50), st.booleans()),
    st.tuples(st.just('selected'), st.integers(0, 50), st.booleans()),
    st.tuples(st.just('unselect')),
    st.tuples(st.just('move'), st.sampled_from(NAMES), _point),
    st.tuples(st.just('box'), _point, st.tuples(st.integers(0, 40), st.integers(0, 40)), st.booleans()),
    st.tuples(st.just('at'), _point, st.integers(0, 40).map(lambda i: i / 4)),
    st.tuples(st.just('at'), _point, st.integers(0, 40).map(lambda i: i / 4)),
    st.tuples(st.just('geometry'), st.integers(0, 50)),
    st.tuples(st.just('index')),
)


class Record:

    def __init__(self, item, spec, user_data):
        self.item, self.spec, self.user_data = item, spec, user_data
        self.z, self.visible, self.selected = 0, True, False


class UserData:
    pass


class Model:

    def __init__(self, matrix):
        self.matrix = matrix
        self.scene = GraphicScene(transformation_of(matrix))
        self.records = []
        self.coordinates = {}
        self.pool = [UserData(), UserData(), UserData()]
        self.found = self.removed = 0
        for i, name in enumerate(NAMES):
            self.move(name, (float(i), -2. * i))

    def move(self, name, p):
        moved = [record for record in self.records if name in record.spec[1]]
        # the first ones have a bounding box
        for record in moved[::2]:
            self.check_box(record)
        self.coordinates[name] = p
        coordinate = self.scene.add_coordinate(name, Vector2D(*p))
        ensure(coordinate.name == name and xy(coordinate.position) == p, 'coordinate {}', name)
        for record in moved:
            record.item.dirty = True
        for record in moved[::3]:
            self.check_box(record)

    def check_box(self, record):
        expected = self.box(record)
        box = tuple(float(x) for x in record.item.bounding_box.bounding_box)
        ensure(all(num.close(a, b, num.magnitude_of(expected[:2], expected[2:])) for a, b in zip(box, expected)), 'box {} of {} instead of {}', box, record.spec, expected)

    def resolve(self, position):
        return self.coordinates[position] if isinstance(position, str) else position

    def cast(self, position):
        return image(self.matrix, self.resolve(position))

    def add(self, spec):
        kind, positions, extra, index = spec
        user_data = None if index is None else self.pool[index]
        args = [p if isinstance(p, str) else Vector2D(*p) for p in positions]
        scene = self.scene
        if kind == 'text':
            new = scene.text(*args, 'text', FONT, user_data=user_data)
        elif kind == 'image':
            new = scene.image(*args, 'image', user_data=user_data)
        elif kind in ('polyline', 'polygon'):
            new = getattr(scene, kind)(args, STYLE, user_data=user_data)
        elif kind == 'arc':
            new = scene.circle(*args, extra[0], STYLE, user_data=user_data, start_angle=extra[1], stop_angle=extra[2])
        else:
            new = getattr(scene, kind)(*args, *extra, STYLE, user_data=user_data)
        ensure(new is not None and new.scene is scene and new.user_data is user_data, 'item of {}', spec)
        ensure(list(new.positions) == args, 'positions {} of {}', new.positions, spec)
        for i, arg in enumerate(args):
            name = 'position' if len(args) == 1 else 'position{}'.format(i + 1)
            if hasattr(new, name):
                ensure(getattr(new, name) == arg, '{} of {}', name, spec)
        self.records.append(Record(new, spec, user_data))

    def geometry(self, record):
        """A new geometry"""
        kind, positions, extra, _ = record.spec
        points = [self.cast(p) for p in positions]
        vectors = [Vector2D(*p) for p in points]
        if kind in ('rectangle', 'image'):
            return Rectangle2D(*vectors)
        if kind == 'text':
            return Rectangle2D(vectors[0], vectors[0])
        if kind == 'arc':
            return Circle2D(vectors[0], extra[0], domain=AngularDomain(*extra[1:]))
        if kind == 'circle':
            return Circle2D(vectors[0], extra[0])
        cls = dict(ellipse=Ellipse2D, segment=Segment2D, polyline=Polyline2D, polygon=Polygon2D, quadratic_bezier=QuadraticBezier2D, cubic_bezier=CubicBezier2D)[kind]
        return cls(*vectors, *extra)

    def box(self, record):
        kind, positions, extra, _ = record.spec
        if kind == 'circle':
            (x, y), r = self.cast(positions[0]), extra[0]
            return (x - r, y - r, x + r, y + r)
        if kind in ('segment', 'polyline', 'polygon', 'rectangle', 'image', 'text'):
            points = [self.cast(p) for p in positions]
            return tuple(f(p[i] for p in points) for f, i in ((min, 0), (min, 1), (max, 0), (max, 1)))
        return tuple(float(x) for x in self.geometry(record).bounding_box.bounding_box)

    def distance(self, record, p):
        kind, positions, extra, _ = record.spec
        if kind == 'circle':
            return abs(num.dist(p, self.cast(positions[0])) - extra[0])
        if kind in ('segment', 'polyline', 'polygon', 'rectangle', 'image', 'text'):
            points = [self.cast(q) for q in positions]
            if kind in ('rectangle', 'image'):
                (x1, y1), (x2, y2) = points
                points = [(x1, y1), (x1, y2), (x2, y2), (x2, y1)]
            pairs = list(zip(points, points[1:])) or [(points[0], points[0])]
            if kind not in ('segment', 'polyline', 'text'):
                pairs.append((points[-1], points[0]))
            return min(distance_to_segment(p, *pair) for pair in pairs)
        return float(self.geometry(record).distance_to_point(Vector2D(*p)))

    def check(self):
        scene, records = self.scene, self.records
        ensure(len(scene) == scene.number_of_items == len(records), 'number of items {}, expected {}', len(scene), len(records))
        self.same(scene, records, 'items')
        self.same(scene.z_value_iter(), sorted((r for r in records if r.visible), key=lambda r: r.z), 'visible items by depth')
        self.same(scene.selected_items, [r for r in records if r.selected], 'selected items')
        for user_data in self.pool:
            self.same(scene.item_for_user_data(user_data) or [], [r for r in records if r.user_data is user_data], 'items of an user data')
        ensure(not scene.item_for_user_data(UserData()), 'items for an unknown user data')
        ensure({c.name: xy(c.position) for c in scene.coordinates} == self.coordinates, 'coordinates')
        for name, p in self.coordinates.items():
            ensure(xy(scene.coordinate(name).position) == p, 'coordinate {}', name)
            ensure_point(scene.cast_position(name), image(self.matrix, p), 'cast of {}', name, scale=100)

    @staticmethod
    def same(items, records, what):
        items = list(items)
        expected = [r.item for r in records]
        ensure(len(items) == len(expected) and all(a is b for a, b in zip(items, expected)), '{} {}, expected {}', what, items, expected)

    def query_box(self, p, size, as_interval):
        box = (p[0], p[1], p[0] + size[0] / 4, p[1] + size[1] / 4)
        self.scene.update_rtree()
        items = self.scene.item_in_bounding_box(Interval2D((box[0], box[2]), (box[1], box[3])) if as_interval else box)
        items = [] if items is None else list(items)
        ensure(len({id(i) for i in items}) == len(items), 'an item was found twice')
        expected = 0
        for record in self.records:
            b = self.box(record)
            gap = max(b[0] - box[2], box[0] - b[2], b[1] - box[3], box[1] - b[3])
            scale = max(1., *(abs(x) for x in b))
            found = any(i is record.item for i in items)
            ensure(gap > -1e-9 * scale or found, '{} of box {} is not in {}', record.spec, b, box)
            ensure(gap < 1e-9 * scale or not found, '{} of box {} is found in {}', record.spec, b, box)
            expected += found
        ensure(expected == len(items), 'unknown items were found')
        self.found += expected

    def query_at(self, p, radius):
        self.scene.update_rtree()
        result = self.scene.item_at(Vector2D(*p), radius)
        ensure(all(a[0] <= b[0] for a, b in zip(result, result[1:])), 'items are sorted by distance')
        items = {id(i): d for d, i in result}
        ensure(len(items) == len(result), 'an item was found twice')
        expected = 0
        for record in self.records:
            distance = self.distance(record, p)
            epsilon = 1e-6 * max(1., distance, *(abs(x) for q in record.spec[1] for x in self.cast(q)))
            found = id(record.item) in items
            ensure(found or distance > radius - epsilon, '{} at {} of {} was not found within {}', record.spec, distance, p, radius)
            ensure(not found or distance < radius + epsilon, '{} at {} of {} was found within {}', record.spec, distance, p, radius)
            if found:
                ensure(abs(items[id(record.item)] - distance) < epsilon, 'distance {} of {}, expected {}', items[id(record.item)], record.spec, distance)
            expected += found
        ensure(expected == len(items), 'unknown items were found')
        self.found += expected

    def run(self, op):
        name = op[0]
        records = self.records
        if name == 'add':
            self.add(op[1])
        elif name == 'move':
            self.move(*op[1:])
        elif name == 'box':
            self.query_box(*op[1:])
        elif name == 'at':
            self.query_at(*op[1:])
        elif name == 'index':
            self.scene.update_rtree()
        elif name == 'unselect':
            self.scene.unselect_items()
            for r in records:
                r.selected = False
        elif records:
            record = records[op[1] % len(records)]
            if name == 'remove':
                self.scene.remove_item(record.item)
                records.remove(record)
                self.removed += 1
            elif name == 'geometry':
                ensure(isinstance(record.item.geometry, type(self.geometry(record))), 'geometry of {}', record.spec)
                self.check_box(record)
            elif name == 'z':
                record.item.z_value = record.z = op[2]
            elif name == 'visible':
                record.item.visible = record.visible = op[2]
            else:
                record.item.selected = record.selected = op[2]


def distance_to_segment(p, a, b):
    v = num.sub(b, a)
    n = num.dot(v, v)
    t = 0. if n == 0 else max(0., min(1., num.dot(num.sub(p, a), v) / n))
    return num.dist(p, num.add(a, num.mul(v, t)))


@check.facet(st.tuples(_matrix, st.integers(4, 40).flatmap(lambda n: st.lists(operation, min_size=n, max_size=n))), quick=600)
def histories(case):
    matrix, operations = case
    model = Model(matrix)
    for op in operations:
        if op[0] == 'add' and 'bezier' in op[1][0]:
            points = [model.cast(p) for p in op[1][1]]
            if max(num.dist(points[0], p) for p in points[1:]) < 1e-3:
                continue
        if op[0] == 'add' and op[1][0] in ('segment', 'polyline', 'polygon'):
            points = [model.cast(p) for p in op[1][1]]
            if any(num.dist(p, q) < 1e-3 for p, q in zip(points, points[1:] + points[:1])):
                continue
        if op[0] == 'move':
            before = model.coordinates[op[1]]
            model.coordinates[op[1]] = op[2]
            bad = False
            for r in model.records:
                points = [model.cast(p) for p in r.spec[1]]
                if op[1] in r.spec[1] and len(points) > 1 and any(num.dist(p, q) < 1e-3 for p, q in zip(points, points[1:] + points[:1])):
                    bad = True
            model.coordinates[op[1]] = before
            if bad:
                continue
        model.run(op)
        model.check()
    model.query_box((-4., -3.), (40, 30), True)
    model.query_at((.25, 1.), 2.)
    for name in NAMES[:2]:
        model.scene.remove_coordinate(name)
        del model.coordinates[name]
    ensure({c.name for c in model.scene.coordinates} == set(model.coordinates), 'removed coordinates')
    return 'history' if model.removed and model.found else None


@check.facet(st.tuples(st.integers(10, 80).flatmap(lambda n: st.lists(item(), min_size=n, max_size=n)),
                       st.integers(5, 60).flatmap(lambda n: st.lists(st.tuples(st.sampled_from(['remove', 'remove', 'z', 'visible']), st.integers(0, 100), st.integers(-3, 3)), min_size=n, max_size=n)),
                       st.booleans()), quick=100)
def populations(case):
    """Many items, then many removals and changes of depth"""
    items, changes, indexed = case
    model = Model(svgdata.IDENTITY)
    for spec in items:
        points = [model.cast(p) for p in spec[1]]
        if len(points) > 1 and any(num.dist(p, q) < 1e-3 for p, q in zip(points, points[1:] + points[:1])):
            continue
        model.add(spec)
    if indexed:
        model.scene.update_rtree()
    for name, i, value in changes:
        model.run((name, i, value) if name == 'z' else (name, i, value > 0))
    model.check()
    model.query_box((-5., -5.), (20, 20), False)
    model.query_at((0., 0.), 3.)
    while model.records:
        model.run(('remove', 0))
    model.check()
    model.query_box((-100., -100.), (1000, 1000), False)
    return 'population'


# -- primitives ----------------------------------------------------------------------------------------------------

def check_samples(geometry, piece, matrix, what, scale):
    for t in (0., .25, .5, .8, 1.):
        p, q = paths.sample_geometry(geometry, t), image(matrix, sample(piece, t))
        ensure(num.pclose(p, q, scale, rtol=1e-6, atol=1e-6), '{} passes by {} instead of {} at {}', what, p, q, t)


def sample(piece, t):
    if piece[0] == 'round':
        return P24.sample_outline(piece, t)
    if piece[0] == 'ellipse':
        _, (cx, cy), rx, ry, angle, start, stop = piece
        a, b = math.radians(start + t * (stop - start)), math.radians(angle)
        x, y = rx * math.cos(a), ry * math.sin(a)
        return (cx + math.cos(b) * x - math.sin(b) * y, cy + math.sin(b) * x + math.cos(b) * y)
    return paths.sample(piece, t)


_radius = st.integers(1, 80).map(lambda i: i / 8)


@st.composite
def domain(draw):
    if draw(st.booleans()):
        return None
    start = draw(st.integers(-180, 359))
    return (start, start + draw(st.integers(5, 355)))


@st.composite
def primitive(draw):
    kind = draw(st.sampled_from(['segment', 'quadratic', 'cubic', 'circle', 'ellipse', 'polyline', 'polygon', 'triangle', 'rectangle', 'spline']))
    if kind in ('circle', 'ellipse'):
        return (kind, draw(_point), draw(_radius), draw(_radius), draw(gen.angle), draw(domain()))
    size = dict(segment=2, quadratic=3, cubic=4, triangle=3, rectangle=2).get(kind) or draw(st.integers(4, 7))
    points, previous = [], None
    for _ in range(size):
        previous = num.add(previous or (0., 0.), draw(gen.nonzero_point(gen.point_lattice, .5)))
        points.append(previous)
    if kind == 'triangle' and abs(num.cross(num.sub(points[1], points[0]), num.sub(points[2], points[0]))) < .1:
        points[2] = num.add(points[1], (num.sub(points[0], points[1])[1], num.sub(points[1], points[0])[0]))
    return (kind, points, draw(st.integers(2, 3)))


@check.facet(st.tuples(st.integers(1, 4).flatmap(lambda n: st.lists(primitive(), min_size=n, max_size=n)), _matrix), quick=800)
def primitives(case):
    primitives, matrix = case
    scene = GraphicScene(transformation_of(matrix))
    expected = 0
    for spec in primitives:
        kind = spec[0]
        m = matrix
        if kind in ('circle', 'ellipse'):
            _, centre, rx, ry, angle, domain = spec
            d = None if domain is None else AngularDomain(*domain)
            if kind == 'circle':
                ry, angle = rx, 0.
                geometry = Circle2D(Vector2D(*centre), rx, domain=d)
            else:
                geometry = Ellipse2D(Vector2D(*centre), rx, ry, angle, d)
            # radii and angles are not transformed
            pieces = [('ellipse', image(matrix, centre), rx, ry, angle) + (domain or (0, 360))]
            m = svgdata.IDENTITY
        else:
            points = spec[1]
            vectors = [Vector2D(*p) for p in points]
            if kind == 'spline':
                geometry = BSpline2D(vectors, spec[2])
                pieces = None
            else:
                cls = dict(segment=Segment2D, quadratic=QuadraticBezier2D, cubic=CubicBezier2D, polyline=Polyline2D, polygon=Polygon2D, triangle=Triangle2D,
                           rectangle=Rectangle2D)[kind]
                geometry = cls(*vectors)
                pieces = [('points', points)]
        result = scene.add_geometry(geometry, STYLE)
        items = list(result) if isinstance(result, (list, tuple)) else [result]
        what = 'item of {}'.format(spec)
        ensure(items and all(i.user_data is geometry and i.path_style is STYLE for i in items), '{}', what)
        ensure(len(scene) == expected + len(items) and list(scene)[expected:] == items, 'items of the scene for {}', what)
        found = scene.item_for_user_data(geometry)
        ensure(found is not None and len(found) == len(items) and all(a is b for a, b in zip(found, items)), 'items by user data for {}', what)
        expected += len(items)
        scale = 100 * max(1., *(abs(x) for x in matrix))
        if kind == 'spline':
            spans = len(points) - spec[2]
            ensure(len(items) == spans, '{} items for {} spans', len(items), spans)
            for i, item in enumerate(items):
                for t in (0., .3, .7, 1.):
                    # on a vertex of the knots, the span does not matter
                    q = image(matrix, xy(geometry.point_at_t(i + t if t < 1 or i < spans - 1 else spans)))
                    p = paths.sample_geometry(item.geometry, t)
                    ensure(num.pclose(p, q, scale, rtol=1e-7, atol=1e-7), 'span {} of {} passes by {} instead of {}', i, what, p, q)
            continue
        ensure(len(items) == 1, 'items {} for {}', items, what)
        item = items[0]
        g = item.geometry
        names = dict(triangle='Polygon2D').get(kind, type(geometry).__name__)
        ensure(type(g).__name__ == names, 'geometry {} of {}', g, what)
        if pieces[0][0] == 'points':
            points = [xy(p) for p in g.points]
            ensure(len(points) == len(spec[1]) and all(num.pclose(p, image(matrix, q), scale) for p, q in zip(points, spec[1])), 'points {} of {} through {}', points, what, matrix)
            if kind in ('quadratic', 'cubic', 'segment'):
                check_samples(g, (kind, spec[1]), matrix, what, scale)
            if kind == 'quadratic':
                # the cubic form has positions of the scene, before its transformation
                cubic = [xy(scene.cast_position(p)) for p in item.cubic_positions]
                for t in (0., .25, .6, 1.):
                    p, q = paths.casteljau(cubic, t), image(matrix, paths.casteljau(spec[1], t))
                    ensure(num.pclose(p, q, scale, rtol=1e-7, atol=1e-7), 'the cubic form of {} passes by {} instead of {}', what, p, q)
        else:
            if g.domain is None:
                ensure(domain is None, 'domain of {}', what)
                for a in range(0, 360, 30):
                    p = xy(g.point_at_angle(a))
                    q = sample(pieces[0], a / 360)
                    ensure(num.pclose(p, q, scale, rtol=1e-6, atol=1e-6), '{} passes by {} instead of {} at {}', what, p, q, a)
            else:
                check_samples(g, pieces[0], svgdata.IDENTITY, what, scale)
            closed = domain is None
            ensure(item.is_closed == closed, 'closure of {}', what)
    return None if matrix == svgdata.IDENTITY else 'transformed'


def match_items(items, pieces, matrix, scale, what):
    """Each piece is drawn by exactly one item"""
    left = list(items)
    for piece in pieces:
        samples = [image(matrix, sample(piece, t)) for t in (0., .25, .5, .75, 1.)]
        for item in left:
            q = [paths.sample_geometry(item.geometry, t) for t in (0., .25, .5, .75, 1.)]
            if any(all(num.pclose(a, b, scale, rtol=1e-6, atol=1e-6) for a, b in zip(samples, l)) for l in (q, q[::-1])):
                left.remove(item)
                break
        else:
            fail('no item draws the piece {} of {}', piece, what)
    for item in left:
        q = [paths.sample_geometry(item.geometry, t) for t in (0., .5, 1.)]
        # an empty part, see the pieces left out by the caller
        ensure(all(num.dist(q[0], p) < 1e-3 * scale for p in q), 'unexpected item {} of {}', item, what)


@check.facet(st.tuples(paths.paths(1, 8), st.booleans(), _matrix, st.sampled_from(['geometry', 'path', 'user data'])), quick=600)
def path_segments(case):
    """A path gives one item for each part"""
    drawing, closed, matrix, method = case
    if any(c[0] == 'arc' for c in drawing[1]):
        # radii are not transformed
        matrix = svgdata.IDENTITY
    path = paths.build(drawing)
    if closed:
        path.close()
    scene = GraphicScene(transformation_of(matrix))
    user_data = path
    if method == 'geometry':
        items = scene.add_geometry(path, STYLE)
    elif method == 'path':
        items = scene.add_path(path, STYLE)
    else:
        user_data = UserData()
        items = scene.add_path(path, STYLE, user_data)
    pieces = paths.pieces(drawing, closed=closed)
    ensure(list(scene) == list(items) and len(items) == len(pieces), '{} items for {} parts', len(scene), len(pieces))
    ensure(all(i.user_data is user_data and i.path_style is STYLE for i in items), 'user data')
    scale = 10 * max(1., *(abs(x) for x in matrix)) * max(num.magnitude_of(*p[1]) for p in pieces)
    for i, (item, piece) in enumerate(zip(items, pieces)):
        what = 'item {} of {}'.format(i, drawing)
        if piece[0] == 'arc' and (num.dist(*piece[1]) < 1e-3 or paths.arc_frame(*piece[1], *piece[2:]) is None):
            continue
        q = [image(matrix, paths.sample(piece, t)) for t in (0., .25, .5, .75, 1.)]
        p = [paths.sample_geometry(item.geometry, t) for t in (0., .25, .5, .75, 1.)]
        big = scale
        if piece[0] == 'arc':
            frame = paths.arc_frame(*piece[1], *piece[2:])
            big = max(scale, frame[1], frame[2])
        ensure(any(all(num.pclose(a, b, big, rtol=1e-6, atol=1e-6) for a, b in zip(l, q)) for l in (p, p[::-1])), '{} {} passes by {} instead of {}', what, piece[0], p, q)
    return None if len(pieces) < 2 else 'arc' if any(p[0] == 'arc' for p in pieces) else 'other'


@check.facet(st.tuples(P18.chains(), gen.point_lattice), quick=500)
def rounded_paths(case):
    """Rounded corners are arcs"""
    (vertices, kinds, fractions, closed), translation = case
    radii = P18.radii_of(vertices, fractions, closed)
    if closed:
        for i in (-1, 0):
            a, b, c = vertices[i - 1], vertices[i], vertices[(i + 1) % len(vertices)]
            if num.dist(a, b) < 1e-2 or num.dist(b, c) < 1e-2 or abs(P18.turn_of(a, b, c)) > 175:
                return None
    path = P18.build(vertices, kinds, radii, closed)
    matrix = (1., 0., 0., 1.) + translation
    scene = GraphicScene(transformation_of(matrix))
    items = scene.add_path(path, STYLE)
    scale = max(1., num.magnitude_of(*vertices)) + max([r or 0 for r in radii]) + 10
    pieces = [p for p in P24.outline(vertices, radii, closed) if num.dist(p[1][0], p[1][-1]) > 1e-5 * scale]
    match_items([i for i in items], pieces, matrix, scale, '{} {}'.format(vertices, radii))
    return 'rounded' if any(p[0] == 'round' for p in pieces) else None


def frame_of(piece):
    """Centre, radii, angle of the axis, first angle and signed span of a piece which is an arc"""
    if piece[0] == 'arc':
        frame = paths.arc_frame(*piece[1], *piece[2:])
        if frame is None:
            return None
        center, rx, ry, start, span = frame
        return center, rx, ry, math.radians(piece[4]), start, span
    if piece[0] == 'round':
        (start, _), center, turn = piece[1:]
        x, y = num.sub(start, center)
        radius = math.hypot(x, y)
        return center, radius, radius, 0., math.atan2(y, x), math.radians(turn)
    return None


def check_arc(segments, start, frame, scale, what):
    """The curves at the head of *segments* follow an arc, return the end; the approximation by cubics is free (3e-4 of the radius for a quarter of turn)"""
    (cx, cy), rx, ry, phi, angle, span = frame
    c, s = math.cos(phi), math.sin(phi)
    progress = 0.
    while True:
        ensure(segments, 'no curve for {} of {}', frame, what)
        points = [start] + [xy(p) for p in segments.pop(0).positions]
        start = points[-1]
        for i in range(1, 9):
            x, y = num.sub(paths.casteljau(points, i / 8), (cx, cy))
            u, v = (c * x + s * y) / rx, (c * y - s * x) / ry
            ensure(abs(math.hypot(u, v) - 1) < 1e-3 + 1e-6 * scale / min(rx, ry), 'the curve {} of {} is not on {}', points, what, frame)
            step = (math.atan2(v, u) - angle - progress + math.pi) % (2 * math.pi) - math.pi
            ensure(step * span > -1e-5, 'the curve {} of {} goes back on {}', points, what, frame)
            progress += step
        ensure(abs(progress) < abs(span) + 1e-2, 'the curves go beyond {} of {}', frame, what)
        if abs(progress) > abs(span) - 1e-2:
            return start


def check_path_item(item, start, pieces, matrix, scale, what):
    """The item follows the pieces, parts without extent are free"""
    epsilon = 1e-5 * scale
    ensure(num.pclose(xy(item.position), start, scale), 'start {} of {}, expected {}', item.position, what, start)
    segments = list(item)
    position = xy(item.position)
    for piece in pieces:
        if all(num.dist(piece[1][0], p) < epsilon for p in piece[1]):
            continue
        while segments and all(num.dist(position, xy(p)) < epsilon for p in segments[0].positions):
            position = xy(segments.pop(0).positions[-1])
        frame = frame_of(piece)
        if frame is not None:
            position = check_arc(segments, position, frame, max(scale, frame[1], frame[2]), what)
            ensure(num.dist(position, piece[1][-1]) < epsilon, 'the arc stops at {} in {}, expected {}', position, what, piece)
            continue
        ensure(segments, 'no segment for {} of {}', piece, what)
        points = [position] + [xy(p) for p in segments.pop(0).positions]
        ensure(len(points) == max(2, len(piece[1])), 'segment {} for {} of {}', points, piece, what)
        expected = piece[1] if piece[0] != 'arc' else [piece[1][0], piece[1][-1]]
        ensure(all(num.dist(p, q) < epsilon for p, q in zip(points, expected)), 'segment {} for {} of {}', points, piece, what)
        position = points[-1]
    # closing segments
    for segment in segments:
        points = [xy(p) for p in segment.positions]
        ensure(item.is_closed and len(points) == 1 or all(num.dist(p, position) < epsilon for p in points), 'unexpected segment {} of {}', points, what)
        ensure(num.dist(points[-1], start) < epsilon or num.dist(points[-1], position) < epsilon, 'unexpected segment {} of {}', points, what)
    # the geometry is the image
    geometry = item.geometry
    ensure(geometry.is_closed == item.is_closed, 'closure of the geometry of {}', what)
    parts = list(geometry)
    ensure(len(parts) >= len(item), 'parts of the geometry of {}', what)
    big = scale * max(1., *(abs(x) for x in matrix))
    previous = xy(item.position)
    for part, segment in zip(parts, item):
        points = [previous] + [xy(p) for p in segment.positions]
        previous = points[-1]
        actual = [xy(p) for p in part.geometry.points]
        ensure(len(actual) == len(points) and all(num.pclose(p, image(matrix, q), big) for p, q in zip(actual, points)), 'part {} of the geometry of {}', actual, what)
    for part in parts[len(item):]:
        # closing parts, may be empty
        q = xy(part.stop_point)
        ensure(num.pclose(q, image(matrix, start), big), 'closing part {} of {}', q, what)


@check.facet(st.tuples(paths.paths(1, 8), st.booleans(), _matrix), quick=900)
def path_items(case):
    """A path as one item"""
    drawing, closed, matrix = case
    path = paths.build(drawing)
    if closed:
        path.close()
    pieces = paths.pieces(drawing)
    if any(p[0] == 'arc' and num.dist(*p[1]) < 1e-3 for p in pieces):
        return None
    scene = GraphicScene(transformation_of(matrix))
    item = scene.add_path(path, STYLE, path, as_segments=False)
    ensure(list(scene) == [item] and item.is_closed == closed and item.user_data is path, 'item of the path')
    scale = 10 * max(num.magnitude_of(*p[1]) for p in pieces)
    check_path_item(item, drawing[0], pieces, matrix, scale, drawing)
    return None if len(pieces) < 2 else 'arc' if any(p[0] == 'arc' for p in pieces) else 'path'


@check.facet(st.tuples(P18.chains(), _matrix), quick=500)
def rounded_path_items(case):
    """A path with rounded corners as one item"""
    (vertices, kinds, fractions, closed), matrix = case
    radii = P18.radii_of(vertices, fractions, closed)
    if closed:
        for i in (-1, 0):
            a, b, c = vertices[i - 1], vertices[i], vertices[(i + 1) % len(vertices)]
            if num.dist(a, b) < 1e-2 or num.dist(b, c) < 1e-2 or abs(P18.turn_of(a, b, c)) > 175:
                return None
    path = P18.build(vertices, kinds, radii, closed)
    scene = GraphicScene(transformation_of(matrix))
    item = scene.add_path(path, STYLE, None, as_segments=False)
    ensure(list(scene) == [item] and item.is_closed == closed, 'item of the path')
    scale = max(1., num.magnitude_of(*vertices)) + max([r or 0 for r in radii]) + 10
    pieces = P24.outline(vertices, radii, closed)
    if closed and pieces[-1][0] == 'round':
        # the first corner
        pieces.insert(0, pieces.pop())
    check_path_item(item, pieces[0][1][0], pieces, matrix, scale, '{} {}'.format(vertices, radii))
    return 'rounded' if any(p[0] == 'round' for p in pieces) else None


@check.facet(st.tuples(st.integers(1, 3), st.integers(1, 40).flatmap(lambda n: st.lists(_position, min_size=n, max_size=n))), quick=500)
def bezier_paths(case):
    degree, points = case
    scene = GraphicScene()
    for i, name in enumerate(NAMES):
        scene.add_coordinate(name, Vector2D(i, i * i))
    positions = [p if isinstance(p, str) else Vector2D(*p) for p in points]
    if (len(points) - 1) % degree:
        try:
            scene.bezier_path(positions, degree, STYLE, user_data=None)
        except ValueError:
            ensure(len(scene) == 0, 'items of a wrong path')
            return 'wrong'
        fail('{} points are accepted for the degree {}', len(points), degree)
    items = scene.bezier_path(positions, degree, STYLE, user_data=None)
    n = (len(points) - 1) // degree
    ensure(len(items) == n == len(scene) and list(scene) == list(items), '{} items for {} curves', len(items), n)
    for i, item in enumerate(items):
        ensure(list(item.positions) == positions[degree * i:degree * (i + 1) + 1], 'positions of the curve {}', i)
        ensure(type(item).__name__ == ('SegmentItem', 'QuadraticBezierItem', 'CubicBezierItem')[degree - 1], 'item {}', item)
    return 'degree {}'.format(degree) if n > 1 else None
