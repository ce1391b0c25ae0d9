"""P31 — DXF import"""

import math
from pathlib import Path

from hypothesis import strategies as st

import ezdxf

from Patro.FileFormat.Dxf.Importer import DxfImporter
from Patro.FileFormat.Dxf.Polyline import Polyline
from Patro.GeometryEngine.Vector import Vector2D

from checks import P15
from pbt import gen, num
from pbt.harness import Check, ensure
from pbt.num import add, dist, mul, sub, xy
from pbt.scratch import scratch

check = Check(
    'P31',
    rule='Hypothesis generates drawings of supported entities (lines, circles, arcs, ellipses, light-weight polylines with bulges, splines with control or fit points, mirrored by their '
         'extrusion or not) and of other entities.  Files are written from their definition as plain text or by ezdxf.  The oracle samples each entity by trigonometry, by bulge '
         'formulas and by the Cox-de Boor scheme on plain floats.  A case is non-trivial when the drawing has a curve.',
    assumptions=['extrusions are (0, 0, 1) or (0, 0, -1)', 'splines are not rational', 'vertices joined by a bulge are distinct', 'arcs are not empty, their angles are in [0, 360[',
                 'a spline defined by fit points passes by them'],
)

_coordinate = st.one_of(st.integers(-50, 50).map(float), st.integers(-10**8, 10**8).map(lambda i: i / 1e6))
_point = st.tuples(_coordinate, _coordinate)
_z = st.sampled_from([0., 0., 0., 5., -1.5])
_radius = st.one_of(st.integers(1, 50).map(float), st.integers(10**3, 10**8).map(lambda i: i / 1e6))
_degree = st.one_of(st.integers(0, 24).map(lambda i: 15. * i), st.integers(0, 360 * 10**6 - 1).map(lambda i: i / 1e6), st.integers(0, 359).map(float))
_side = st.sampled_from([1, 1, 1, -1])


@st.composite
def distinct(draw, n, minimum=1e-2):
    points = [draw(_point)]
    while len(points) < n:
        points.append(add(points[-1], draw(gen.nonzero_point(_point, minimum))))
    return points


_bulge = st.one_of(st.just(0.), st.just(0.), st.sampled_from([1., -1., .5, -.5, .25, 2., -3.]), st.integers(1, 4000).map(lambda i: i / 1000), st.integers(-4000, -1).map(lambda i: i / 1000))


@st.composite
def knots_of(draw, degree, n):
    kind = draw(st.sampled_from(['uniform', 'scaled', 'clamped', 'clamped', 'repeated', 'unclamped']))
    spans = n - degree
    if kind == 'uniform':
        inner = [float(i) for i in range(spans + 1)]
    elif kind == 'scaled':
        start, step = draw(st.sampled_from([0., -1., 2.5])), draw(st.sampled_from([.5, 2., 1 / 3, .001, 10.]))
        inner = [start + i * step for i in range(spans + 1)]
    else:
        low = 0 if kind == 'repeated' else 1
        inner, count = [draw(st.sampled_from([0., 1., -2.]))], 1
        for i in range(spans):
            step = draw(st.integers(low, 8)) / 4
            if step == 0 and (count >= degree or i in (0, spans - 1)):
                step = 1.
            count = count + 1 if step == 0 else 1
            inner.append(inner[-1] + step)
        if kind == 'unclamped':
            before = [inner[0] - i for i in range(degree, 0, -1)]
            after = [inner[-1] + i for i in range(1, degree + 1)]
            return before + inner + after
    return [inner[0]] * degree + inner + [inner[-1]] * degree


SUPPORTED = ('line', 'circle', 'arc', 'arc', 'ellipse', 'ellipse', 'polyline', 'polyline', 'polyline', 'spline', 'spline', 'fit')
OTHERS = ('text', 'point', 'old polyline', 'insert', 'solid')


@st.composite
def entity(draw):
    """Plain data: kind, parameters in the coordinates of the entity, elevation, side of the extrusion"""
    kind = draw(st.sampled_from(SUPPORTED + SUPPORTED + OTHERS))
    side = draw(_side)
    z = draw(_z)
    if kind == 'line':
        return (kind, (draw(_point), draw(_point)), z, side)
    if kind == 'circle':
        return (kind, (draw(_point), draw(_radius)), z, side)
    if kind == 'arc':
        start = draw(_degree)
        stop = draw(_degree)
        if min((stop - start) % 360, (start - stop) % 360) < 1e-3:
            stop = start + 90
        return (kind, (draw(_point), draw(_radius), start, stop), z, side)
    if kind == 'ellipse':
        major = draw(st.one_of(gen.nonzero_point(_point, 1e-2), _radius.map(lambda r: (0., r)), _radius.map(lambda r: (0., -r)), _radius.map(lambda r: (-r, 0.)), _radius.map(lambda r: (r, 0.))))
        ratio = draw(st.sampled_from([1., .5, .25, .1, .8, 1 / 3]))
        start, stop = draw(st.one_of(st.just((0., 360.)), st.tuples(_degree, _degree)))
        if (start, stop) != (0., 360.):
            start, stop = start % 360, stop % 360
            if min((stop - start) % 360, (start - stop) % 360) < 1e-3:
                stop = (start + 90) % 360
        return (kind, (draw(_point), major, ratio, math.radians(start), math.radians(stop)), z, side)
    if kind == 'polyline':
        n = draw(st.integers(2, 7))
        points = draw(distinct(n))
        closed = draw(st.booleans())
        bulges = [draw(_bulge) for _ in range(n)]
        if closed and dist(points[0], points[-1]) < 1e-2:
            bulges[-1] = 0.
        return (kind, (points, bulges, closed), z, side)
    if kind == 'spline':
        degree = draw(st.integers(1, 5))
        n = draw(st.integers(degree + 1, degree + 6))
        return (kind, ([draw(_point) for _ in range(n)], degree, draw(knots_of(degree, n)), draw(st.integers(0, 5)) == 0), z, 1)
    if kind == 'fit':
        return (kind, (draw(distinct(draw(st.integers(2, 6)), 1)),), z, 1)
    return (kind, (draw(_point),), z, 1)


# -- writing -------------------------------------------------------------------------------------------------------

def codes(spec, handle):
    kind, data, z, side = spec
    def point(code, p, depth=z):
        return [(code, p[0]), (code + 10, p[1]), (code + 20, depth)]
    extrusion = point(210, (0., 0.), float(side)) if side < 0 else []
    if kind == 'line':
        return [(0, 'LINE'), (100, 'AcDbEntity'), (8, '0'), (100, 'AcDbLine')] + point(10, data[0]) + point(11, data[1]) + extrusion
    if kind in ('circle', 'arc'):
        l = [(0, kind.upper()), (100, 'AcDbEntity'), (8, '0'), (100, 'AcDbCircle')] + point(10, data[0]) + [(40, data[1])] + extrusion
        return l + ([(100, 'AcDbArc'), (50, data[2]), (51, data[3])] if kind == 'arc' else [])
    if kind == 'ellipse':
        centre, major, ratio, start, stop = data
        return [(0, 'ELLIPSE'), (100, 'AcDbEntity'), (8, '0'), (100, 'AcDbEllipse')] + point(10, centre) + point(11, major, 0.) + extrusion + [(40, ratio), (41, start), (42, stop)]
    if kind == 'polyline':
        points, bulges, closed = data
        l = [(0, 'LWPOLYLINE'), (100, 'AcDbEntity'), (8, '0'), (100, 'AcDbPolyline'), (90, len(points)), (70, int(closed)), (38, z)]
        for p, b in zip(points, bulges):
            l += [(10, p[0]), (20, p[1])] + ([(42, b)] if b else [])
        return l + extrusion
    if kind == 'spline':
        points, degree, knots, closed = data
        l = [(0, 'SPLINE'), (100, 'AcDbEntity'), (8, '0'), (100, 'AcDbSpline'), (70, 8 + int(closed)), (71, degree), (72, len(knots)), (73, len(points)), (74, 0)]
        return l + [(40, k) for k in knots] + [c for p in points for c in point(10, p)]
    if kind == 'fit':
        l = [(0, 'SPLINE'), (100, 'AcDbEntity'), (8, '0'), (100, 'AcDbSpline'), (70, 8), (71, 3), (72, 0), (73, 0), (74, len(data[0]))]
        return l + [c for p in data[0] for c in point(11, p)]
    if kind == 'text':
        return [(0, 'TEXT'), (100, 'AcDbEntity'), (8, '0'), (100, 'AcDbText')] + point(10, data[0]) + [(40, 2.), (1, 'LINE')]
    if kind == 'point':
        return [(0, 'POINT'), (100, 'AcDbEntity'), (8, '0'), (100, 'AcDbPoint')] + point(10, data[0])
    if kind == 'solid':
        return [(0, 'SOLID'), (100, 'AcDbEntity'), (8, '0'), (100, 'AcDbTrace')] + point(10, data[0]) + point(11, (0., 0.)) + point(12, (1., 0.)) + point(13, (1., 1.))
    if kind == 'insert':
        return [(0, 'INSERT'), (100, 'AcDbEntity'), (8, '0'), (100, 'AcDbBlockReference'), (2, 'B')] + point(10, data[0])
    return [(0, 'POLYLINE'), (100, 'AcDbEntity'), (8, '0'), (100, 'AcDb2dPolyline'), (66, 1)] + point(10, (0., 0.)) + [(70, 0), (0, 'VERTEX'), (100, 'AcDbEntity'), (8, '0'), (100, 'AcDbVertex'), (100, 'AcDb2dVertex')] + point(10, data[0]) \
        + [(0, 'VERTEX'), (100, 'AcDbEntity'), (8, '0'), (100, 'AcDbVertex'), (100, 'AcDb2dVertex')] + point(10, (1., 2.)) + [(0, 'SEQEND'), (100, 'AcDbEntity'), (8, '0')]


def write_text(path, specs):
    lines = [(0, 'SECTION'), (2, 'HEADER'), (9, '$ACADVER'), (1, 'AC1015'), (0, 'ENDSEC'), (0, 'SECTION'), (2, 'ENTITIES')]
    for i, spec in enumerate(specs):
        lines += codes(spec, i)
    lines += [(0, 'ENDSEC'), (0, 'EOF')]
    path.write_text(''.join('{}\n{}\n'.format(c, repr(v) if isinstance(v, float) else v) for c, v in lines))


def write_ezdxf(path, specs, version):
    drawing = ezdxf.new(version)
    space = drawing.modelspace()
    block = drawing.blocks.new('B')
    block.add_line((0, 0), (1, 1))
    drawing.layout('Layout1').add_circle((0, 0), 3)
    for kind, data, z, side in specs:
        attribs = dict(extrusion=(0, 0, side)) if side < 0 else {}
        def p3(p):
            return (p[0], p[1], z)
        if kind == 'line':
            space.add_line(p3(data[0]), p3(data[1]), dxfattribs=attribs)
        elif kind == 'circle':
            space.add_circle(p3(data[0]), data[1], dxfattribs=attribs)
        elif kind == 'arc':
            space.add_arc(p3(data[0]), data[1], data[2], data[3], dxfattribs=attribs)
        elif kind == 'ellipse':
            centre, major, ratio, start, stop = data
            space.add_ellipse(p3(centre), major + (0.,), ratio, start, stop, dxfattribs=attribs)
        elif kind == 'polyline':
            points, bulges, closed = data
            space.add_lwpolyline([p + (b,) for p, b in zip(points, bulges)], format='xyb', close=closed, dxfattribs=dict(attribs, elevation=z))
        elif kind == 'spline':
            points, degree, knots, closed = data
            s = space.add_open_spline([p3(p) for p in points], degree, knots)
            s.closed = closed
        elif kind == 'fit':
            space.add_spline([p3(p) for p in data[0]])
        elif kind == 'text':
            space.add_text('LINE').set_placement(data[0])
        elif kind == 'point':
            space.add_point(data[0])
        elif kind == 'solid':
            space.add_solid([data[0], (0, 0), (1, 0), (1, 1)])
        elif kind == 'insert':
            space.add_blockref('B', data[0])
        else:
            space.add_polyline2d([data[0], (1, 2)])
    drawing.saveas(path)


# -- oracle --------------------------------------------------------------------------------------------------------

SAMPLES = (0., .2, .3, .5, .7, .8, 1.)


def mirrored(p, side):
    return (side * p[0], p[1])


def bulge_point(p, q, bulge, f):
    """Turn around the centre of the arc"""
    if bulge == 0:
        return num.lerp(p, q, f)
    theta = 4 * math.atan(bulge)   # signed angle of the arc
    half = mul(sub(q, p), .5)
    middle = add(p, half)
    # centre at the left when the bulge is in ]0, 1[
    centre = add(middle, mul((-half[1], half[0]), 1 / math.tan(theta / 2)))
    v = sub(p, centre)
    c, s = math.cos(f * theta), math.sin(f * theta)
    return add(centre, (c * v[0] - s * v[1], s * v[0] + c * v[1]))


def sample_conic(geometry, f):
    domain = geometry.domain
    if domain is None:
        return xy(geometry.point_at_angle(360 * f))
    start, span = domain.start, domain.stop - domain.start
    if type(geometry).__name__ == 'Circle2D' and abs(span) < 360:
        span %= 360   # circular arcs are counter-clockwise
    return xy(geometry.point_at_angle(start + f * span))


def same_curve(actual, expected, scale, what):
    ok = any(all(num.pclose(p, q, scale, rtol=1e-8, atol=1e-8) for p, q in zip(l, expected)) for l in (actual, actual[::-1]))
    ensure(ok, '{} passes by {} instead of {}', what, actual, expected)


def name_of(geometry):
    return type(geometry).__name__


def verify(geometry, spec):
    kind, data, z, side = spec
    what = '{} for {}'.format(geometry, spec)
    if kind == 'line':
        # ends are in the world, the extrusion does not matter
        ensure(name_of(geometry) == 'Segment2D', what)
        ensure((xy(geometry.p0), xy(geometry.p1)) == data, what)
    elif kind in ('circle', 'arc', 'ellipse'):
        ensure(name_of(geometry) == ('Ellipse2D' if kind == 'ellipse' else 'Circle2D'), what)
        if kind == 'ellipse':
            centre, major, ratio, start, stop = data
            span = stop - start if stop > start else stop - start + 2 * math.pi
            minor = (-side * ratio * major[1], side * ratio * major[0])
            # the centre and the major axis of an ellipse are in the world
            def point(f):
                t = start + f * span
                return add(centre, add(mul(major, math.cos(t)), mul(minor, math.sin(t))))
            scale, closed = num.magnitude_of(centre) + math.hypot(*major), span > 2 * math.pi - 1e-9
        else:
            centre, radius = data[:2]
            start, span = 0, 360
            if kind == 'arc':
                start, span = data[2], (data[3] - data[2]) % 360
            def point(f):
                t = math.radians(start + f * span)
                return mirrored(add(centre, (radius * math.cos(t), radius * math.sin(t))), side)
            scale, closed = num.magnitude_of(centre) + radius, kind == 'circle'
            ensure(num.close(geometry.radius, radius, scale), what)
        ensure(bool(geometry.is_closed) == closed, 'closure of {}', what)
        expected = [point(f) for f in SAMPLES]
        if closed:
            # any start
            for p in [sample_conic(geometry, f) for f in SAMPLES]:
                v = sub(p, centre if kind == 'ellipse' else mirrored(centre, side))
                if kind == 'circle':
                    ensure(num.close(math.hypot(*v), radius, scale), what)
                else:
                    n = math.hypot(*major)
                    x, y = num.dot(v, major) / n**2, num.dot(v, minor) / (ratio * n)**2
                    ensure(abs(x * x + y * y - 1) < 1e-9 * max(1., scale / (n * ratio)), what)
            middle = [sample_conic(geometry, f) for f in (0., .5)]
            ensure(num.pclose(mul(add(*middle), .5), centre if kind == 'ellipse' else mirrored(centre, side), scale), 'halves of {}', what)
        else:
            same_curve([sample_conic(geometry, f) for f in SAMPLES], expected, scale, what)
    elif kind == 'polyline':
        points, bulges, closed = data
        ensure(isinstance(geometry, list), what)
        pairs = list(zip(points, points[1:] + points[:1], bulges))
        if not closed:
            del pairs[-1]
        ensure(len(geometry) == len(pairs), what)
        for item, (p, q, bulge) in zip(geometry, pairs):
            scale = num.magnitude_of(p, q) + (dist(p, q) * (abs(bulge) + 1 / abs(bulge)) if bulge else 0)
            expected = [mirrored(bulge_point(p, q, bulge, f), side) for f in SAMPLES]
            if bulge:
                ensure(name_of(item) == 'Circle2D' and item.radius > 0, what)
                actual = [sample_conic(item, f) for f in SAMPLES]
            else:
                ensure(name_of(item) == 'Segment2D', what)
                actual = [num.lerp(xy(item.p0), xy(item.p1), f) for f in SAMPLES]
                ensure((xy(item.p0), xy(item.p1)) == (mirrored(p, side), mirrored(q, side)), 'ends of {}', what)
            same_curve(actual, expected, scale, what)
    elif kind == 'spline':
        points, degree, knots, closed = data
        ensure(name_of(geometry) == 'BSpline2D' and geometry.degree == degree and bool(geometry.is_closed) == closed, what)
        ensure([xy(p) for p in geometry.points] == points, what)
        start, stop = knots[degree], knots[len(points)]
        for f in SAMPLES:
            u = stop if f == 1 else start + f * (stop - start)
            a, b = geometry.start_knot, geometry.end_knot
            t = b if f == 1 else a + f * (b - a)
            p, q = xy(geometry.point_at_t(t)), P15.reference(points, degree, knots, u)
            ensure(num.pclose(p, q, 10 * num.magnitude_of(*points), rtol=1e-7, atol=1e-7), '{} passes by {} instead of {} at {}', what, p, q, f)
    else:
        ensure(name_of(geometry) == 'BSpline2D', what)
        points = data[0]
        a, b = geometry.start_knot, geometry.end_knot
        n = 60 * len(points)
        curve = [xy(geometry.point_at_t(b if i == n else a + i * (b - a) / n)) for i in range(n + 1)]
        scale = max(dist(p, points[0]) for p in points)
        ensure(num.pclose(curve[0], points[0], scale + 100, rtol=1e-6) and num.pclose(curve[-1], points[-1], scale + 100, rtol=1e-6), 'ends of {}', what)
        for p in points:
            ensure(min(num.distance_to_segment(p, c, d) for c, d in zip(curve, curve[1:])) < .02 * scale, '{} does not pass by {}', what, p)


VERSIONS = ('R2000', 'R2004', 'R2007', 'R2010', 'R2018')


@check.facet(st.tuples(st.integers(0, 6).flatmap(lambda n: st.lists(entity(), min_size=n, max_size=n)), st.sampled_from(('text', 'text', 'text') + VERSIONS), st.booleans()), quick=800)
def drawings(case):
    specs, writer, as_string = case
    path = Path(scratch(), 'drawing.dxf')
    if writer == 'text':
        write_text(path, specs)
    else:
        write_ezdxf(path, specs, writer)
    importer = DxfImporter(str(path) if as_string else path)
    expected = [spec for spec in specs if spec[0] not in OTHERS]
    items = list(importer)
    ensure(len(importer) == len(items) == len(expected), '{} items {} for {}', len(importer), items, [spec[0] for spec in expected])
    for i, (item, spec) in enumerate(zip(items, expected)):
        ensure(importer[i] is item, 'item {}', i)
        verify(item, spec)
    ensure(importer[1:] == items[1:], 'slice')
    kinds = [spec[0] for spec in expected if spec[0] not in ('line',)]
    return kinds[0] if kinds else None


@check.facet(st.tuples(st.integers(2, 12).flatmap(lambda n: distinct(n)), st.lists(_bulge, min_size=12, max_size=12), st.booleans()), quick=3000)
def polylines(case):
    """The polylines used to import"""
    points, bulges, closed = case
    n = len(points)
    bulges = bulges[:n]
    if closed and dist(points[0], points[-1]) < 1e-2:
        bulges[-1] = 0.
    polyline = Polyline(closed)
    for p, b in zip(points, bulges):
        if b:
            polyline.add(Vector2D(*p), b)
        else:
            polyline.add(Vector2D(*p))
    ensure(len(polyline) == n and polyline.closed == closed, 'polyline')
    ensure([xy(v.point) for v in polyline] == points and [(v.x, v.y) for v in polyline] == points and [v.bulge for v in polyline] == bulges, 'vertices')
    for i, vertex in enumerate(polyline):
        ensure(polyline[i] is vertex, 'vertex {}', i)
        ensure(vertex.next is (polyline[(i + 1) % n] if closed or i < n - 1 else None), 'vertex after {}', i)
        ensure(vertex.prev is (polyline[i - 1] if closed or i else None), 'vertex before {}', i)
        if vertex.next is None:
            continue
        p, q, b = points[i], points[(i + 1) % n], bulges[i]
        chord = dist(p, q)
        ensure(num.close(vertex.demi_chord, chord / 2, chord) and num.pclose(xy(vertex.segment_vector), sub(q, p), num.magnitude_of(p, q)), 'chord')
        ensure(num.close(vertex.sagitta, b * chord / 2, chord), 'sagitta')
        if b:
            theta = 4 * math.atan(b)
            ensure(num.close(abs(vertex.bulge_radius), chord / 2 / abs(math.sin(theta / 2)), chord * (abs(b) + 1 / abs(b))), 'radius {} of {}', vertex.bulge_radius, case)
            ensure(num.close(abs(vertex.sagitta_dual), abs(chord / 2 / math.tan(theta / 2)), chord * (abs(b) + 1 / abs(b))), 'distance to the centre')
    text = str(polyline)
    ensure(text.count('(') == n, 'text {}', text)
    verify(polyline.geometry(), ('polyline', (points, bulges, closed), 0., 1))
    return 'bulges' if any(bulges) else None


@check.finding('rational')
def rational():
    """A quarter of circle"""
    path = Path(scratch(), 'rational.dxf')
    drawing = ezdxf.new('R2000')
    drawing.modelspace().add_rational_spline([(1, 0), (1, 1), (0, 1)], [1, math.sqrt(.5), 1], 2, [0, 0, 0, 1, 1, 1])
    drawing.saveas(path)
    spline = DxfImporter(path)[0]
    p = xy(spline.point_at_t((spline.start_knot + spline.end_knot) / 2))
    ensure(abs(math.hypot(*p) - 1) < 1e-6, 'the quarter of circle passes by {}', p)


@check.finding('extrusion')
def extrusion():
    """A circle in a vertical plane is a segment"""
    path = Path(scratch(), 'extrusion.dxf')
    drawing = ezdxf.new('R2000')
    drawing.modelspace().add_circle((0, 0), 1, dxfattribs=dict(extrusion=(1, 0, 0)))
    drawing.saveas(path)
    for item in DxfImporter(path):
        box = item.bounding_box
        ensure(abs(box.x.length) < 1e-6, 'the box is {}', box)
