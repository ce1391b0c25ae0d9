"""P04 — bounding boxes"""

import math

from hypothesis import strategies as st

from Patro.GeometryEngine.Bezier import CubicBezier2D, QuadraticBezier2D
from Patro.GeometryEngine.BoundingBox import bounding_box_from_points
from Patro.GeometryEngine.Conic import AngularDomain, Circle2D, Ellipse2D
from Patro.GeometryEngine.Line import Line2D
from Patro.GeometryEngine.Path import Path2D
from Patro.GeometryEngine.Polygon import Polygon2D
from Patro.GeometryEngine.Polyline import Polyline2D
from Patro.GeometryEngine.Rectangle import Rectangle2D
from Patro.GeometryEngine.Segment import Segment2D
from Patro.GeometryEngine.Transformation import AffineTransformation2D
from Patro.GeometryEngine.Triangle import Triangle2D
from Patro.GeometryEngine.Vector import Vector2D

from checks import P16, P17
from pbt import gen, num, paths
from pbt.harness import Check, ensure, fail
from pbt.num import add, ensure_close, polar, rotate, xy

check = Check(
    'P04',
    rule='Hypothesis generates primitives of every kind (points repeated and aligned included), arcs of circle with any angular domain, ellipses with any '
         'rotation and elliptical arcs of both directions, and moves them.  The oracle is the exact extent: minimum and maximum of the points for straight '
         'primitives, closed form of the extremal angles for conics, dense sampling for curves.  A case is non-trivial when the box is not a point and, '
         'for conics, when the shape is rotated or is not closed.',
    assumptions=['coordinates up to 1e4'],
)


def V(p):
    return Vector2D(p)


def box_of(points):
    return (min(p[0] for p in points), max(p[0] for p in points), min(p[1] for p in points), max(p[1] for p in points))


def box(obj):
    b = obj.bounding_box
    ensure(b is not None, 'no bounding box')
    return (float(b.x.inf), float(b.x.sup), float(b.y.inf), float(b.y.sup))


def same(b, expected, scale, message, *args):
    for x, y in zip(b, expected):
        if not num.close(x, y, scale):
            fail('{}: box {} instead of {}', message.format(*args), b, expected)


_makers = {
    'segment': (2, lambda p: Segment2D(*map(V, p))),
    'triangle': (3, lambda p: Triangle2D(*map(V, p))),
    'polyline': (None, lambda p: Polyline2D(*map(V, p))),
    'polygon': (None, lambda p: Polygon2D(*map(V, p))),
    'rectangle': (2, lambda p: Rectangle2D(*map(V, p))),
}


@check.facet(st.tuples(st.sampled_from(sorted(_makers)), gen.points(3, 9), st.integers(0, 3), gen.nonzero_point(gen.point_tame), gen.angle), quick=4000)
def straight(case):
    kind, points, extra, offset, angle = case
    points = points + points[:extra]
    number, make = _makers[kind]
    if number:
        points = points[:number]
    if kind == 'rectangle' and (points[0][0] == points[1][0] or points[0][1] == points[1][1]):
        return None
    if kind == 'triangle' and abs(num.cross(num.sub(points[1], points[0]), num.sub(points[2], points[0]))) < 1e-3 * max(1, num.magnitude_of(*points)):
        return None     # flat triangles are refused
    primitive = make(points)
    expected = box_of(points)
    scale = num.magnitude_of(offset, *points)
    ensure(box(primitive) == expected, '{} {}: box {}', kind, points, box(primitive))
    ensure(box(primitive) == expected, 'the second box differs')
    ensure(box(primitive.clone()) == expected, 'box of a clone')
    b = primitive.bounding_box
    b.enlarge(3.)      # the caller owns the box
    ensure(box(primitive) == expected, 'the box is changed by its user')
    if kind != 'rectangle':
        primitive.transform(AffineTransformation2D.Translation(V(offset)))
        same(box(primitive), box_of([add(p, offset) for p in points]), scale, 'moved {} {}', kind, points)
        rotated = primitive.rotate(angle, clone=True)
        same(box(rotated), box_of([rotate(add(p, offset), angle) for p in points]), scale, 'rotated {} {}', kind, points)
        same(box(primitive), box_of([add(p, offset) for p in points]), scale, 'original of a rotated copy')
    b = bounding_box_from_points([V(p) for p in points])
    ensure((b.x.inf, b.x.sup, b.y.inf, b.y.sup) == expected, 'box of the points {}', points)
    b = V(points[0]).bounding_box
    ensure((b.x.inf, b.x.sup, b.y.inf, b.y.sup) == (points[0][0],) * 2 + (points[0][1],) * 2, 'box of a point')
    return kind if len(set(points)) > 1 else None


_radius = st.one_of(st.integers(1, 20).map(float), st.integers(50, 100000).map(lambda i: i / 1000))
_end = st.one_of(st.integers(-24, 48).map(lambda i: 15. * i), st.integers(-360, 720).map(float), st.integers(-360000, 720000).map(lambda i: i / 1000))
_domain = st.one_of(st.none(), st.tuples(_end, _end), st.tuples(_end, _end))


def arc_extent(f, angles, start, width):
    """Box of f over the angles start .. start + width, *angles* are the extremal ones modulo 180"""
    ts = [start, start + width]
    for a in angles:
        k = math.ceil((start - a) / 180)
        while a + 180 * k <= start + width:
            ts.append(a + 180 * k)
            k += 1
    return box_of([f(t) for t in ts])


@check.facet(st.tuples(gen.point_tame, _radius, _domain, gen.nonzero_point(gen.point_tame)), quick=3000)
def circles(case):
    c, r, domain, offset = case
    scale = num.magnitude_of(c, (r, r), offset)
    start, width = 0., 360.
    circle = Circle2D(V(c), r)
    if domain is not None:
        start, stop = domain
        circle = Circle2D(V(c), r, domain=AngularDomain(start, stop))
        # counter-clockwise
        width = 360. if abs(stop - start) >= 360 else (stop - start) % 360
    expected = arc_extent(lambda t: add(c, polar(r, t)), (0., 90.), start, width)
    same(box(circle), expected, scale, 'circle {}', case[:3])
    circle.bounding_box.enlarge(2.)
    same(box(circle), expected, scale, 'circle {} again', case[:3])
    circle.center = V(add(c, offset))
    moved = (expected[0] + offset[0], expected[1] + offset[0], expected[2] + offset[1], expected[3] + offset[1])
    same(box(circle), moved, scale, 'moved circle {}', case)
    return 'arc' if width < 360 else ('circle' if domain is None else 'closed arc')


@check.facet(st.tuples(gen.point_tame, _radius, _radius, gen.angle, _domain, _radius), quick=3000)
def ellipses(case):
    c, rx, ry, phi, domain, r2 = case
    scale = num.magnitude_of(c, (rx, ry), (r2, r2))
    e = Ellipse2D(V(c), rx, ry, phi, None if domain is None else AngularDomain(*domain))

    def expected(rx):
        f = math.radians(phi)

        def at(t):
            t = math.radians(t)
            return add(c, rotate((rx * math.cos(t), ry * math.sin(t)), phi))
        tx = math.degrees(math.atan2(-ry * math.sin(f), rx * math.cos(f)))
        ty = math.degrees(math.atan2(ry * math.cos(f), rx * math.sin(f)))
        if domain is None:
            return arc_extent(at, (tx, ty), 0., 360.)
        # signed
        start, stop = sorted(domain)
        return arc_extent(at, (tx, ty), start, stop - start)
    same(box(e), expected(rx), scale, 'ellipse {}', case)
    e.bounding_box.enlarge(2.)
    same(box(e), expected(rx), scale, 'ellipse {} again', case)
    e.radius_x = r2
    same(box(e), expected(r2), scale, 'ellipse {} with another radius', case)
    if domain is not None:
        return 'arc'
    return 'rotated' if phi % 90 else 'axis aligned'


@check.facet(st.tuples(gen.points(3, 4), gen.angle), quick=1500)
def beziers(case):
    points, angle = case
    curve = (QuadraticBezier2D if len(points) == 3 else CubicBezier2D)(*map(V, points))
    scale = num.magnitude_of(*points)
    tolerance = 1e-9 * scale
    for curve, points in ((curve, points), (curve.rotate(angle, clone=True), [rotate(p, angle) for p in points])):
        b = box(curve)
        control = box_of(points)
        ensure(b[0] >= control[0] - tolerance and b[1] <= control[1] + tolerance and b[2] >= control[2] - tolerance and b[3] <= control[3] + tolerance,
               'the box {} goes out of the box of the control points {}', b, points)
        n = len(points) - 1
        for i in range(33):
            t = i / 32
            w = [math.comb(n, k) * t**k * (1 - t)**(n - k) for k in range(n + 1)]
            x = sum(u * p[0] for u, p in zip(w, points))
            y = sum(u * p[1] for u, p in zip(w, points))
            ensure(b[0] - tolerance <= x <= b[1] + tolerance and b[2] - tolerance <= y <= b[3] + tolerance,
                   'the point at {} of {} is out of the box {}', t, points, b)
    return 'curve' if len(set(points)) > 1 else None


@check.facet(st.tuples(gen.point_tame, gen.nonzero_point(gen.point_tame)), quick=100)
def infinite(case):
    p, v = case
    ensure(Line2D(V(p), V(v)).bounding_box is None, 'a line has no box')
    return 'line'


# -- paths ---------------------------------------------------------------------------------------------------------

@st.composite
def _looping(draw):
    """A path, some of whose curves come back to their start"""
    start, commands = draw(paths.paths(1, 6))
    current, previous, out = start, None, []
    for command in commands:
        if command[0] in ('quadratic', 'cubic') and draw(st.booleans()):
            command = command[:-2] + ((current, True) if command[-1] else ((0., 0.), False))
        out.append(command)
        previous = paths.interpret(command, current, previous)
        current = previous[1][-1]
    return start, out


def extent(pieces, image):
    """The smallest box of the images of the pieces, and a box that contains theirs"""
    low, high = [], []
    for piece in pieces:
        points = [image(paths.sample(piece, i / 64)) for i in range(65)]
        low += points
        if piece[0] == 'arc':
            sagitta = max(num.dist(p, q) for p, q in zip(points, points[1:]))
            high += [add(p, (dx * sagitta, dy * sagitta)) for p in points for dx in (-1, 1) for dy in (-1, 1)]
        else:
            high += [image(p) for p in piece[1]]
    return box_of(low), box_of(high)


@check.facet(st.tuples(_looping(), st.sets(st.integers(0, 5), max_size=2), st.lists(P17.similarity, max_size=2)), quick=1200)
def path_boxes(case):
    """The box is asked while the path is drawn, then after transformations"""
    path, queries, transformations = case
    start, commands = path
    pieces = paths.pieces(path)
    scale = P16.scale_of(pieces)
    if any(piece[0] == 'arc' and num.dist(piece[1][0], piece[1][-1]) < 1e-3 for piece in pieces):
        return None   # an arc of one point

    def check_box(obj, pieces, image, scale, what):
        b = box(obj)
        low, high = extent(pieces, image)
        e = 1e-6 * scale
        ensure(b[0] <= low[0] + e and low[1] - e <= b[1] and b[2] <= low[2] + e and low[3] - e <= b[3], '{}: the box {} does not contain {}', what, b, low)
        ensure(high[0] - e <= b[0] and b[1] <= high[1] + e and high[2] - e <= b[2] and b[3] <= high[3] + e, '{}: the box {} is larger than {}', what, b, high)

    obj = Path2D(V(start))
    for i, command in enumerate(commands):
        paths.execute(obj, command)
        if i in queries:
            check_box(obj, pieces[:i + 1], lambda p: p, scale, 'drawing')
    check_box(obj, pieces, lambda p: p, scale, 'path')
    done = []
    for t in transformations:
        P17.apply(obj, t, False)
        done.append(t)

        def image(p):
            for d in done:
                p = P17.image(d, p)
            return p

        factor = max(1., *(num.magnitude_of(image(p)) for p in ((0., 0.), (1., 0.), (0., 1.), (scale, scale), (scale, -scale))))
        check_box(obj, pieces, image, scale + factor, 'after {}'.format(done))
    loops = any(piece[0] != 'arc' and num.dist(piece[1][0], piece[1][-1]) < 1e-9 for piece in pieces)
    return 'loop' if loops else ('moved' if transformations else None)
