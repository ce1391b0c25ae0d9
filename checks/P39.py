"""P39 — The Qt viewer shows every item of the scene at its place in the viewport"""

import base64
import math
import os
import re
from pathlib import Path
from xml.etree import ElementTree

os.environ.setdefault('QT_QPA_PLATFORM', 'offscreen')

import numpy as np
from hypothesis import strategies as st

from IntervalArithmetic import Interval2D
from Patro.GeometryEngine.Vector import Vector2D
from Patro.GraphicEngine.GraphicScene.GraphicStyle import Font, GraphicBezierStyle, GraphicPathStyle
from Patro.GraphicEngine.Painter.QtPainter import QtPainter, QtQuickPaintedSceneItem, QtScene, ViewportArea
from Patro.GraphicEngine.GraphicScene.GraphicItem import PathItem
from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
from Patro.GraphicStyle import CapStyle, JoinStyle, StrokeStyle
from PyQt5.QtCore import QObject, QPointF, QRectF, QSize
from PyQt5.QtGui import QGuiApplication, QImage, QPainter
from PyQt5.QtSvg import QSvgGenerator

from checks import P32, P33
from pbt import num, svgdata
from pbt.harness import Check, ensure, fail
from pbt.scratch import scratch

check = Check(
    'P39',
    rule='Hypothesis generates scenes of items of every kind that the Qt painter draws, with every style, named coordinates, depths, hidden and selected items and a transformation, and histories of resizes, '
         'changes of scene, zooms, pans, fits and mouse positions on a viewport.  The painter draws on the SVG device of Qt, whose output is parsed by an independent reader and compared with the items mapped '
         'by a model of the viewport made of a center and a scale.  A case is non-trivial when at least three items are visible and the scene has a transformation, a hidden item or several depths, '
         'or when the history has at least three moves of the viewport.',
    assumptions=['numbers of the SVG device of Qt have 6 digits and the ones of texts are rounded to 1/64', 'an image has a width and a height', 'angles of arcs are rounded to 1/16 of degree', 'open arcs are not filled', 'the drawing is on the raster-independent SVG device instead of OpenGL'],
)

_application = {}


def application():
    if os.getpid() not in _application:
        os.environ.setdefault('XDG_RUNTIME_DIR', os.path.dirname(scratch()))
        _application[os.getpid()] = QGuiApplication.instance() or QGuiApplication(['check'])


# -- scenes --------------------------------------------------------------------------------------------------------

NAMES = P33.NAMES
KINDS = dict(segment=2, circle=1, arc=1, ellipse=1, elliptical_arc=1, polyline=None, polygon=None, image=2, quadratic_bezier=3, cubic_bezier=4, path=1, text=1)
PIECES = ('segment', 'polyline', 'polygon', 'quadratic_bezier', 'cubic_bezier', 'path')
CAPS = dict(FlatCap='butt', SquareCap='square', RoundCap='round')
JOINS = dict(MiterJoin='miter', BevelJoin='bevel', RoundJoin='round', SvgMiterJoin='miter')

_alpha = st.sampled_from([1., 1., 1., .5, .25, .8])
_width = st.one_of(st.sampled_from([1., 2, 3, 1.5, '2']), st.integers(1, 999).map(lambda i: 5 * i / 100).filter(lambda w: w not in (.25, .75)))
_style = st.fixed_dictionaries(dict(
    stroke=st.sampled_from(P33.STYLES), width=_width, color=st.one_of(P33._color, P33._color, P33._color, st.none()), alpha=_alpha, fill=st.one_of(st.none(), st.none(), P33._color),
    fill_alpha=_alpha, cap=st.sampled_from(sorted(CAPS)), join=st.sampled_from(sorted(JOINS)), control=st.one_of(st.none(), st.none(), P33._color),
))


@st.composite
def item(draw, kinds=tuple(sorted(KINDS))):
    kind = draw(st.sampled_from(kinds))
    positions = [draw(P33._position) for _ in range(KINDS[kind] or draw(st.integers(2 if kind == 'polyline' else 3, 5)))]
    extra = ()
    if kind == 'path':
        sizes = draw(st.lists(st.integers(1, 3), min_size=1, max_size=4))
        extra = (sizes, draw(st.booleans()))
        positions += [draw(P33._position) for _ in range(sum(sizes))]
    elif kind == 'text':
        extra = (draw(P33._text), draw(st.sampled_from(['Arial', 'DejaVu Sans', 'Times'])), draw(st.integers(4, 40)))
    elif kind == 'image':
        width, height = draw(st.integers(1, 9)), draw(st.integers(1, 5))
        extra = (width, height, draw(st.integers(0, 1 << 30)))
    elif kind in ('circle', 'arc', 'ellipse', 'elliptical_arc'):
        extra = (draw(st.integers(4, 120)) / 4,)
        if 'ellip' in kind:
            extra += (draw(st.integers(4, 120)) / 4, draw(st.one_of(st.integers(-180, 180), st.integers(-18000, 18000).map(lambda i: i / 100))))
        if 'arc' in kind:
            start = draw(st.one_of(st.integers(-360, 360), st.integers(-3600, 3600).map(lambda i: i / 10)))
            stop = start + draw(st.one_of(st.integers(2, 358), st.integers(20, 3580).map(lambda i: i / 10)))
            # the counterclockwise arc from start to stop
            extra += (start, stop - draw(st.sampled_from([0, 0, 360])))
    return (kind, positions, extra, draw(_style), draw(P33._depth), draw(P33._visible), draw(st.sampled_from([False, False, False, True])))


_scene = st.tuples(st.tuples(*[P33._point for _ in NAMES]), st.integers(0, 8).flatmap(lambda n: st.lists(item(), min_size=n, max_size=n)), P32._matrix, P33.box())


class Scene(QtScene):

    def __init__(self, transformation):
        QObject.__init__(self)
        GraphicScene.__init__(self, transformation)


def pixels_of(extra):
    width, height, seed = extra
    return [[tuple((seed * (k + 1) + 7919 * (x + 31 * y + 101 * k)) % 256 for k in range(3)) for x in range(width)] for y in range(height)]


def build(case, drawn=True):
    """Return the scene and the expected items"""
    coordinates, items, matrix, box = case
    application()
    scene = Scene(P32.transformation_of(matrix))
    scene.bounding_box = Interval2D((box[0], box[2]), (box[1], box[3]))
    named = dict(zip(NAMES, coordinates))
    for name, p in named.items():
        scene.add_coordinate(name, Vector2D(*p))
    expected = []
    for kind, positions, extra, style, depth, visible, selected in items:
        points = [P32.image(matrix, named[p] if isinstance(p, str) else p) for p in positions]
        if drawn and kind in PIECES and all(num.dist(p, points[0]) < 1e-3 * (1 + num.magnitude_of(*points)) for p in points):
            continue   # Qt draws a dot or nothing
        if drawn and kind == 'image' and min(abs(x - y) for x, y in zip(*points)) < 1e-3 * (1 + num.magnitude_of(*points)):
            continue
        args = [p if isinstance(p, str) else Vector2D(*p) for p in positions]
        new = add_item(scene, kind, args, extra, style_of(style))
        ensure(new.visible is True and new.selected is False and new.z_value == 0, 'new item {} {} {}', new.visible, new.selected, new.z_value)
        new.z_value, new.visible, new.selected = depth, visible, selected
        if visible:
            expected.append((depth, len(expected), dict(kind=kind, points=points, extra=extra, style=style, selected=selected)))
    return scene, [e[-1] for e in sorted(expected, key=lambda e: e[:2])]


def style_of(style):
    kwargs = dict(stroke_style=StrokeStyle[style['stroke']], line_width=style['width'], stroke_color=style['color'], stroke_alpha=style['alpha'],
                  fill_color=style['fill'], fill_alpha=style['fill_alpha'], cap_style=CapStyle[style['cap']], join_style=JoinStyle[style['join']])
    if style['control'] is None:
        return GraphicPathStyle(**kwargs)
    return GraphicBezierStyle(show_control=True, control_color=style['control'], **kwargs)


def add_item(scene, kind, args, extra, style):
    if kind == 'text':
        return scene.text(*args, extra[0], Font(*extra[1:]), user_data=None)
    if kind == 'image':
        return scene.image(*args, np.array(pixels_of(extra), dtype=np.uint8), user_data=None)
    if kind in ('polyline', 'polygon'):
        return getattr(scene, kind)(args, style, user_data=None)
    if kind == 'path':
        sizes, closed = extra
        path, i = scene.add_item(PathItem, args[0], style, user_data=None), 1
        for n in sizes:
            dict(zip((1, 2, 3), (path.line_to, path.quadratic_to, path.cubic_to)))[n](*args[i:i + n])
            i += n
        if closed:
            path.close()
        return path
    if kind == 'arc':
        return scene.circle(*args, extra[0], style, user_data=None, start_angle=extra[1], stop_angle=extra[2])
    if kind == 'elliptical_arc':
        return scene.ellipse(*args, *extra[:3], style, user_data=None, start_angle=extra[3], stop_angle=extra[4])
    return getattr(scene, kind)(*args, *extra, style, user_data=None)


def label_of(case, expected):
    _, items, matrix, _ = case
    if len(expected) < 3:
        return None
    if len(items) > len(expected):
        return 'hidden'
    if len({i[4] for i in items}) > 1:
        return 'depths'
    return None if matrix == svgdata.IDENTITY else 'transformed'


# -- reading -------------------------------------------------------------------------------------------------------

NAMED = dict(P33.CSS, none=None)


def numbers_of(text):
    return [float(x) for x in re.findall(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?', text)]


def rgb_of(text):
    return None if text == 'none' else P33.svg_rgb(text)


def read(path):
    """List of dictionaries with the shape in the device and the style"""
    root = ElementTree.parse(str(path)).getroot()
    items = []
    strip = lambda node: node.tag.split('}')[-1]
    head = {strip(node): node.text for node in root if strip(node) in ('title', 'desc')}
    head['view'], head['size'] = numbers_of(root.get('viewBox')), (root.get('width'), root.get('height'))

    def visit(node, style, matrix):
        tag = strip(node)
        style = dict(style, **node.attrib)
        if 'transform' in node.attrib:
            matrix = svgdata.compose(matrix, tuple(numbers_of(node.attrib['transform'].split('(')[1])))
        if tag == 'g':
            for child in node:
                visit(child, style, matrix)
            return
        if tag in ('title', 'desc', 'defs'):
            return
        a = lambda name: float(style.get(name, 0))
        shape = dict(style=style)
        if tag == 'polyline' or tag == 'polygon':
            values = numbers_of(style['points'])
            points = [tuple(values[i:i + 2]) for i in range(0, len(values), 2)]
            points += [points[0]] if tag == 'polygon' else []
            shape['pieces'] = [[p, q] for p, q in zip(points, points[1:])]
        elif tag == 'line':
            shape['pieces'] = [[(a('x1'), a('y1')), (a('x2'), a('y2'))]]
        elif tag == 'path':
            shape['pieces'] = [p[1] for p in svgdata.to_pieces(svgdata.parse(style['d']))]
        elif tag in ('circle', 'ellipse'):
            rx, ry = (a('r'), a('r')) if tag == 'circle' else (a('rx'), a('ry'))
            shape['samples'] = [(a('cx') + rx * math.cos(t), a('cy') + ry * math.sin(t)) for t in (math.pi * i / 32 for i in range(65))]
        elif tag == 'text':
            shape.update(text=node.text, points=[(a('x'), a('y'))])
        elif tag == 'image':
            href = [v for k, v in node.attrib.items() if k.endswith('href')][0]
            shape.update(image=QImage.fromData(base64.b64decode(href.split(',', 1)[1])), box=(a('x'), a('y'), a('width'), a('height')), direct=matrix)
        else:
            fail('element {}', tag)
        apply = lambda p: P32.image(matrix, p)
        if 'pieces' in shape:
            shape['pieces'] = [[apply(p) for p in piece] for piece in shape['pieces']]
        for key in ('samples', 'points'):
            if key in shape:
                shape[key] = [apply(p) for p in shape[key]]
        items.append(shape)

    for child in root:
        visit(child, {}, svgdata.IDENTITY)
    return head, items


# -- comparison ----------------------------------------------------------------------------------------------------

def cubic_of(points):
    """Cubic or linear form of a piece"""
    if len(points) == 3:
        a, b, c = points
        return [a, num.lerp(a, b, 2 / 3), num.lerp(c, b, 2 / 3), c]
    return points


def is_short(piece, atol):
    return all(num.dist(p, piece[0]) <= 3 * atol for p in piece)


def same_pieces(actual, expected, atol, what):
    actual, expected = [cubic_of(p) for p in actual], [cubic_of(p) for p in expected]
    i = j = 0
    while i < len(actual) or j < len(expected):
        if i < len(actual) and j < len(expected) and len(actual[i]) == len(expected[j]) and all(num.dist(p, q) <= atol for p, q in zip(actual[i], expected[j])):
            i, j = i + 1, j + 1
        elif i < len(actual) and is_short(actual[i], atol):
            i += 1
        elif j < len(expected) and is_short(expected[j], atol):
            j += 1
        else:
            fail('{} is drawn as {} instead of {}', what, actual, expected)


def samples_of(shape):
    if 'samples' in shape:
        return shape['samples']
    points = []
    for piece in shape['pieces']:
        for t in (i / 8 for i in range(9)):
            row = piece
            while len(row) > 1:
                row = [num.lerp(p, q, t) for p, q in zip(row, row[1:])]
            points.append(row[0])
    return points


def same_ellipse(shape, center, scale, rx, ry, angle, domain, atol, what):
    """The viewport is downwards"""
    rx, ry = rx * scale, ry * scale
    points = samples_of(shape)
    parameters = []
    for p in points:
        x, y = num.rotate((p[0] - center[0], center[1] - p[1]), -angle)
        d = math.hypot(x / rx, y / ry)
        ensure(abs(d - 1) <= 1e-3 + atol / min(rx, ry), '{} is drawn by {}', what, p)
        parameters.append(math.degrees(math.atan2(y / ry, x / rx)))
    slack = .1 + math.degrees(atol / min(rx, ry))
    steps = [(b - a + 180) % 360 - 180 for a, b in zip(parameters, parameters[1:])]
    ensure(all(abs(s) < 30 for s in steps), 'arc of {}', what)
    total = sum(steps)
    if domain is None:
        ensure(abs(abs(total) - 360) <= slack, '{} is drawn along {} degrees', what, total)
        return
    start, stop = domain
    span = (stop - start) % 360
    if total < 0:
        parameters, total = parameters[::-1], -total
    ensure(abs(total - span) <= 2 * slack, '{} is drawn along {} degrees', what, total)
    ensure(abs((parameters[0] - start + 180) % 360 - 180) <= slack, '{} starts at {} degrees', what, parameters[0])


def check_style(shape, e, atol):
    style, expected = shape['style'], e['style']
    what = e
    stroke = rgb_of(style['stroke'])
    color = (255, 0, 0) if e['selected'] else expected['color'] and P33.rgb_of(expected['color'])
    visible = bool(color) and expected['stroke'] != 'NoPen'
    ensure((stroke is not None) == visible, 'visibility of {}: {}', what, style)
    if visible:
        ensure(stroke == color, 'colour {} of {}', stroke, what)
        alpha = 1 if e['selected'] else expected['alpha']
        ensure(abs(float(style.get('stroke-opacity', 1)) - alpha) < 5e-3, 'alpha {} of {}', style.get('stroke-opacity'), what)
        width = float(expected['width']) * (4 if e['selected'] else 1)
        ensure(abs(float(style['stroke-width']) - width) < 1e-4 * width, 'width {} of {}', style['stroke-width'], what)
        ensure(style['stroke-linecap'] == CAPS[expected['cap']] and style['stroke-linejoin'] == JOINS[expected['join']], 'cap and join of {}', what)
        dashes = numbers_of(style['stroke-dasharray']) if style.get('stroke-dasharray', 'none') != 'none' else []
        n = dict(SolidLine=0, DashLine=2, DotLine=2, DashDotLine=4, DashDotDotLine=6)[expected['stroke']]
        ensure(len(dashes) == n, 'dashes {} of {}', dashes, what)
        if n > 2:
            ensure(dashes[0] > 1.5 * dashes[2], 'dashes {} of {}', dashes, what)
        elif n:
            ensure((dashes[0] > dashes[1]) == (expected['stroke'] == 'DashLine'), 'dashes {} of {}', dashes, what)
    if e['kind'] not in ('segment', 'arc', 'elliptical_arc'):
        fill = rgb_of(style['fill'])
        ensure(fill == (expected['fill'] and P33.rgb_of(expected['fill'])), 'fill {} of {}', fill, what)
        if fill:
            ensure(abs(float(style.get('fill-opacity', 1)) - expected['fill_alpha']) < 5e-3, 'alpha {} of {}', style.get('fill-opacity'), what)


def compare(shapes, expected, mapping, scale, dpi=None):
    shapes = list(shapes)
    for e in expected:
        points = [mapping(p) for p in e['points']]
        atol = 2e-5 * (1 + num.magnitude_of(*points) + (max(e['extra'][:2]) * scale if e['kind'] in ('arc', 'circle', 'ellipse', 'elliptical_arc') else 0))
        kind, extra = e['kind'], e['extra']
        if not shapes:
            fail('{} is not drawn', e)
        shape = shapes.pop(0)
        if kind == 'text':
            ensure('text' in shape and shape['text'] == extra[0], '{} is drawn as {}', e, shape)
            ensure(num.dist(shape['points'][0], points[0]) <= atol + .025, 'text at {} instead of {}', shape['points'], points)
            ensure(shape['style']['font-family'] == extra[1] and rgb_of(shape['style']['fill']) == (0, 0, 0), 'style of a text {}', shape['style'])
            if dpi is not None:
                ensure(abs(float(shape['style']['font-size']) - extra[2] * dpi / 72) < 1e-3 * extra[2] * dpi / 72, 'size of a text {}', shape['style'])
            continue
        if kind == 'image':
            ensure('image' in shape and shape['direct'][:4] == (1., 0., 0., 1.), '{} is drawn as {}', e, shape)
            x, y, width, height = shape['box']
            (x1, y1), (x2, y2) = points
            x, y = x + shape['direct'][4], y + shape['direct'][5]
            ensure(abs(x - min(x1, x2)) <= atol and abs(y - min(y1, y2)) <= atol and abs(width - abs(x1 - x2)) <= 2 * atol and abs(height - abs(y1 - y2)) <= 2 * atol,
                   'image in {} instead of {}', shape['box'], points)
            image, pixels = shape['image'], pixels_of(extra)
            ensure((image.width(), image.height()) == extra[:2], 'size of an image')
            actual = [[image.pixelColor(i, j).getRgb()[:3] for i in range(extra[0])] for j in range(extra[1])]
            ensure(actual == pixels, 'pixels {} instead of {}', actual, pixels)
            continue
        ensure('pieces' in shape or 'samples' in shape, '{} is drawn as {}', e, shape)
        check_style(shape, e, atol)
        if kind in ('circle', 'arc'):
            same_ellipse(shape, points[0], scale, extra[0], extra[0], 0, extra[1:] if kind == 'arc' else None, atol, e)
        elif kind in ('ellipse', 'elliptical_arc'):
            same_ellipse(shape, points[0], scale, *extra[:3], extra[3:] if kind == 'elliptical_arc' else None, atol, e)
        else:
            ensure('pieces' in shape, '{} is drawn as {}', e, shape)
            same_pieces(shape['pieces'], pieces_of(kind, points, extra), atol, e)
        if kind in ('quadratic_bezier', 'cubic_bezier') and e['style']['control'] is not None:
            controls = cubic_of(points)
            ensure(len(shapes) >= 5, 'controls of {}', e)
            polygon, dots, shapes = shapes[0], shapes[1:5], shapes[5:]
            color = P33.rgb_of(e['style']['control'])
            ensure(rgb_of(polygon['style']['stroke']) == color and rgb_of(polygon['style']['fill']) is None, 'style of the controls of {}', e)
            same_pieces(polygon['pieces'], [[p, q] for p, q in zip(controls, controls[1:])], atol, ('controls', e))
            for p, dot in zip(controls, dots):
                ensure(rgb_of(dot['style']['fill']) == color, 'style of the controls of {}', e)
                same_ellipse(dot, p, 1, 3, 3, 0, None, atol, ('control', e))
    ensure(not shapes, '{} is drawn but is not an item', shapes)


def pieces_of(kind, points, extra):
    if kind in ('quadratic_bezier', 'cubic_bezier'):
        return [points]
    if kind == 'path':
        sizes, closed = extra
        pieces, i = [], 0
        for n in sizes:
            pieces.append(points[i:i + n + 1])
            i += n
        return pieces + ([[points[-1], points[0]]] if closed else [])
    return [[p, q] for p, q in zip(points, points[1:])] + ([[points[-1], points[0]]] if kind == 'polygon' else [])


# -- SVG file ------------------------------------------------------------------------------------------------------

_scale = st.one_of(st.just(None), st.integers(1, 30), st.integers(100, 3000).map(lambda i: i / 100))
_dpi = st.sampled_from([None, 72, 96, 100, 254, 300])
_title = st.sampled_from(['', 'Corset', 'front and back', '(1)', '3'])   # Qt does not escape them


@check.facet(st.tuples(_scene, _scale, _dpi, _title, _title, st.booleans()), quick=1500)
def svg(case):
    data, scale, dpi, title, description, as_path = case
    scene, expected = build(data)
    path = Path(scratch(), 'qt.svg')
    path.unlink(missing_ok=True)
    kwargs = {k: v for k, v in dict(scale=scale, dpi=dpi).items() if v is not None}
    if title or description:
        kwargs.update(title=title, description=description)
    QtPainter(scene).to_svg(path if as_path else str(path), **kwargs)
    scale, dpi = scale or 10, dpi or 100
    head, shapes = read(path)
    ensure(head.get('title') in (title, None if not title else title) and head.get('desc') in (description, None if not description else description), 'title {}', head)
    x0, y0, x1, y1 = data[-1]
    box = (x0 * scale, -y1 * scale, (x1 - x0) * scale, (y1 - y0) * scale)
    ensure(all(abs(a - b) <= 2e-5 * (1 + max(map(abs, box))) for a, b in zip(head['view'], box)), 'view box {} instead of {}', head['view'], box)
    for text, length in zip(head['size'], box[2:]):
        ensure(text.endswith('mm'), 'size {}', text)
        ensure(length - .01 <= float(text[:-2]) * dpi / 25.4 <= length * 1.0001 + 1.01, 'size {} for {} px at {} dpi', text, length, dpi)
    compare(shapes, expected, lambda p: (scale * p[0], -scale * p[1]), scale, dpi)
    return label_of(data, expected)


# -- viewport ------------------------------------------------------------------------------------------------------

_size = st.tuples(st.integers(20, 2000), st.integers(20, 2000))
_pixel = st.tuples(st.integers(0, 1000), st.integers(0, 1000))
_zoom = st.integers(10, 4000).map(lambda i: i / 100)
_factor = st.sampled_from([.5, 2, 1.1, .9, 4, .25])

_operation = st.one_of(
    st.tuples(st.just('resize'), _size),
    st.tuples(st.just('fit')),
    st.tuples(st.just('zoom_at'), _pixel, st.one_of(_zoom, _factor.map(lambda f: -f))),
    st.tuples(st.just('zoom_at'), _pixel, st.one_of(_zoom, _factor.map(lambda f: -f))),
    st.tuples(st.just('zoom_at_center'), st.one_of(_zoom, _factor.map(lambda f: -f))),
    st.tuples(st.just('pan'), st.tuples(st.integers(-300, 300), st.integers(-300, 300))),
    st.tuples(st.just('pan'), st.tuples(st.integers(-300, 300), st.integers(-300, 300))),
    st.tuples(st.just('scene'), st.integers(0, 2)),
    st.tuples(st.just('at'), _pixel),
    st.tuples(st.just('at'), _pixel),
)


class Viewport:
    """Model"""

    def __init__(self):
        self.size, self.center, self.scale, self.box = (0., 0.), None, 1., None

    def fit(self):
        if self.box is not None and self.size[0] and self.size[1]:
            x0, y0, x1, y1 = self.box
            self.center = ((x0 + x1) / 2, (y0 + y1) / 2)
            scales = [s / (1.02 * l) for s, l in zip(self.size, (x1 - x0, y1 - y0)) if l]
            if scales:
                self.scale = min(scales)

    def to_viewport(self, p):
        return (self.size[0] / 2 + self.scale * (p[0] - self.center[0]), self.size[1] / 2 - self.scale * (p[1] - self.center[1]))

    def to_scene(self, p):
        return (self.center[0] + (p[0] - self.size[0] / 2) / self.scale, self.center[1] + (self.size[1] / 2 - p[1]) / self.scale)


class ScreenItem(QtQuickPaintedSceneItem):

    updates = 0

    def update(self, *args):
        self.updates += 1
        super().update(*args)


class History:

    def __init__(self, scenes, drawn=True):
        application()
        self.scenes, self.drawn = scenes, drawn
        self.model = Viewport()
        self.index, self.expected = None, []
        self.item = ScreenItem()
        self.changes = 0
        self.item.sceneChanged.connect(self.on_scene_changed)
        self.moves = 0

    def on_scene_changed(self):
        self.changes += 1

    def resize(self, size):
        # two notifications, one for each length
        for set_, attribute in ((self.item.setWidth, 0), (self.item.setHeight, 1)):
            set_(size[attribute])
            self.model.size = tuple(float(size[k]) if k <= attribute else self.model.size[k] for k in (0, 1))
            if self.model.center is None:
                self.model.fit()
        self.moves += 1

    def set_scene(self, index):
        if self.index == index:
            # fitted only when the scene changes
            changes = self.changes
            self.item.scene = self.scene
            ensure(self.changes == changes, 'the scene is the same')
            return
        self.index = index
        self.scene, self.expected = build(self.scenes[index], self.drawn)
        updates, changes = self.item.updates, self.changes
        self.item.scene = self.scene
        ensure(self.item.updates > updates and self.changes == changes + 1, 'the new scene is not painted')
        ensure(self.item.scene is self.scene, 'scene')
        self.model.box = self.scenes[index][-1]
        self.model.fit()

    def active(self):
        return self.index is not None and len(self.scene) > 0 and self.model.center is not None

    def run(self, operations):
        for operation in operations:
            view, updates = (self.model.center, self.model.scale), self.item.updates
            self.step(*operation)
            if operation[0] in ('fit', 'pan', 'zoom_at', 'zoom_at_center') and (self.model.center, self.model.scale) != view:
                ensure(self.item.updates > updates, 'the scene is not painted again after {}', operation)
            self.check()

    def step(self, name, *args):
        model = self.model
        if name == 'resize':
            self.resize(*args)
        elif name == 'scene':
            self.set_scene(*args)
        elif not self.active():
            return
        elif name == 'fit':
            self.item.fit_scene()
            model.fit()
        elif name == 'pan':
            (dx, dy), = args
            self.item.pan(QPointF(dx, dy))
            model.center = (model.center[0] + dx / model.scale, model.center[1] + dy / model.scale)
            self.moves += 1
        elif name in ('zoom_at', 'zoom_at_center'):
            zoom = args[-1] if args[-1] > 0 else -args[-1] * self.item.zoom
            if not .001 <= zoom <= 1e4:
                return
            if name == 'zoom_at':
                center = model.to_scene(args[0])
                self.item.zoom_at(QPointF(*args[0]), zoom)
                model.center = center
            else:
                self.item.zoom_at_center(zoom)
            model.scale = zoom
            self.moves += 1
        else:
            expected = model.to_scene(args[0])
            text = self.item.format_coordinate(QPointF(*args[0]))
            actual = [float(x) for x in text.split(', ')]
            ensure(re.fullmatch(r'-?\d+\.\d{3}, -?\d+\.\d{3}', text) and all(abs(a - b) <= 5.1e-4 + 1e-9 * self.magnitude() for a, b in zip(actual, expected)),
                   'position {} instead of {}', text, expected)

    def magnitude(self):
        model = self.model
        return 1 + num.magnitude_of(model.center) + max(model.size) / model.scale

    def check(self):
        item, model = self.item, self.model
        if model.center is None:
            ensure(item.scene_area is None, 'area {}', item.scene_area)
            return
        if not (model.size[0] and model.size[1]):
            return
        atol = 1e-9 * self.magnitude()
        ensure(abs(item.zoom - model.scale) <= 1e-9 * model.scale, 'zoom {} instead of {}', item.zoom, model.scale)
        area = item.scene_area
        corners = model.to_scene((0, model.size[1])) + model.to_scene((model.size[0], 0))
        ensure(all(abs(a - b) <= atol for a, b in zip(area.bounding_box, corners)), 'area {} instead of {}', area, corners)
        ensure(abs(item.length_viewport_to_scene(item.length_scene_to_viewport(7.)) - 7) < 1e-12 and abs(item.length_scene_to_viewport(3) - 3 * model.scale) < 1e-9 * model.scale, 'lengths')
        for p in (model.center, model.to_scene((0, 0)), (1., 2.), (-3., 5.)):
            q = item.scene_to_viewport(Vector2D(*p))
            ensure(num.dist((q.x(), q.y()), model.to_viewport(p)) <= atol * model.scale + 1e-9, '{} is at {} in the viewport', p, q)
            back = next(x for x in vars(item).values() if isinstance(x, ViewportArea)).viewport_to_scene(q)
            ensure(num.dist(tuple(float(x) for x in back), p) <= atol + 1e-9 * self.magnitude(), '{} back from the viewport is {}', p, back)

    def draw(self):
        path = Path(scratch(), 'screen.svg')
        path.unlink(missing_ok=True)
        generator = QSvgGenerator()
        generator.setFileName(str(path))
        generator.setResolution(100)
        generator.setSize(QSize(*[int(s) for s in self.model.size]))
        generator.setViewBox(QRectF(0, 0, *self.model.size))
        painter = QPainter()
        painter.begin(generator)
        try:
            self.item.paint(painter)
        finally:
            painter.end()
        return read(path)[1]


def check_grid(shapes, model):
    """Check the grid and return the other shapes"""
    x0, y1 = model.to_scene((0, 0))
    x1, y0 = model.to_scene(model.size)
    length = min(x1 - x0, y1 - y0)
    step = 10
    while step * 10 <= length:
        step *= 10
    if abs(length / (step * 10) - 1) < 1e-9 or step > 10 and abs(length / step - 1) < 1e-9:
        step = None   # a rounding error changes the step
    n = 0
    while n < len(shapes) and 'pieces' in shapes[n] and shapes[n]['style'].get('stroke-width') in ('0.75', '0.25'):
        n += 1
    grid, others = shapes[:n], shapes[n:]
    if step is None:
        return others
    lines = {'0.75': [], '0.25': []}
    for shape in grid:
        ensure(rgb_of(shape['style']['stroke']) == (0, 0, 0) and len(shape['pieces']) == 1, 'line of the grid {}', shape)
        (p, q) = shape['pieces'][0]
        ensure(shape['style']['stroke-width'] == '0.75' or lines['0.75'] or step > length, 'order of the grid')
        lines[shape['style']['stroke-width']].append((p, q))
    for width, space in (('0.75', step), ('0.25', step // 10)):
        for axis, (inf, sup) in enumerate(((x0, x1), (y0, y1))):
            tolerance = 1e-9 * (1 + abs(inf) + abs(sup))
            sure = {k for k in range(math.floor(inf / space) - 1, math.ceil(sup / space) + 2) if inf + tolerance < k * space < sup - tolerance}
            atol = 2e-5 * (1 + max(model.size))
            found = [pq for pq in lines[width] if abs(pq[0][axis] - pq[1][axis]) <= 2 * atol and abs(pq[0][1 - axis] - pq[1][1 - axis]) >= model.size[1 - axis] - 2 * atol - 1e-6]
            places = sorted(model.to_scene(pq[0])[axis] for pq in found)
            indices = [round(p / space) for p in places]
            ensure(all(abs(p - k * space) <= atol / model.scale + tolerance for p, k in zip(places, indices)), 'grid {} for steps of {}', places, space)
            ensure(len(set(indices)) == len(indices) and sure <= set(indices) and all(inf - tolerance <= k * space <= sup + tolerance for k in indices),
                   'grid at {} for steps of {} between {} and {}', indices, space, inf, sup)
    ensure(len(grid) == sum(1 for width in lines for pq in lines[width]), 'grid')
    return others


@check.facet(st.tuples(st.tuples(_scene, _scene, _scene), _size, st.integers(0, 8).flatmap(lambda n: st.lists(_operation, min_size=n, max_size=n)), st.booleans()), quick=1000)
def screen(case):
    scenes, size, operations, scene_first = case
    history = History(scenes)
    if scene_first:
        history.set_scene(0)
        history.check()
        history.resize(size)
    else:
        history.resize(size)
        history.check()
        history.set_scene(0)
    history.check()
    history.run(operations)
    model = history.model
    x0, y1 = model.to_scene((0, 0))
    x1, y0 = model.to_scene(model.size)
    sides = sorted((x1 - x0, y1 - y0))
    if sides[1] > 50 * sides[0] or sides[1] > 1e5:
        return None   # thousands of lines
    shapes = check_grid(history.draw(), model)
    compare(shapes, history.expected, model.to_viewport, model.scale, 100)
    return 'moves' if history.moves > 2 and history.expected else label_of(scenes[history.index], history.expected)


# -- whole scene ---------------------------------------------------------------------------------------------------

@check.facet(st.tuples(_scene, _size, st.sampled_from([None, 'x', 'y', 'point', 'undefined']), st.booleans()), quick=600)
def fit(case):
    """A fitted viewport shows the whole scene, even if the scene has no width"""
    data, size, flat, scene_first = case
    scene, _ = build(data)
    x0, y0, x1, y1 = data[-1]
    x1 = x0 if flat in ('x', 'point') else x1
    y1 = y0 if flat in ('y', 'point') else y1
    scene.bounding_box = None if flat == 'undefined' else Interval2D((x0, x1), (y0, y1))
    item = QtQuickPaintedSceneItem()
    if scene_first:
        item.scene = scene
    item.setWidth(size[0])
    item.setHeight(size[1])
    if not scene_first:
        item.scene = scene
    area = item.scene_area
    zoom = item.zoom
    ensure(0 < zoom < math.inf, 'zoom {}', zoom)
    if flat == 'undefined':
        ensure(all(abs(a) < 1e-9 for a in area.center), 'area {}', area)
        return 'undefined'
    ensure(num.dist(area.center, ((x0 + x1) / 2, (y0 + y1) / 2)) < 1e-9 * (1 + abs(x0) + abs(y0) + abs(x1) + abs(y1) + max(size) / zoom), 'area {}', area)
    slack = 1e-9 * (1 + max(map(abs, (x0, y0, x1, y1))))
    if flat != 'point':
        ensure(area.x.inf <= x0 + slack and area.x.sup >= x1 - slack and area.y.inf <= y0 + slack and area.y.sup >= y1 - slack, 'area {} for {}', area, data[-1])
        ratios = [(b - a) / l.length for a, b, l in ((x0, x1, area.x), (y0, y1, area.y))]
        ensure(abs(max(ratios) * 1.02 - 1) < 1e-9 * (1 + slack * 1e9 / max(x1 - x0, y1 - y0)), 'fill ratios {}', ratios)
    ensure(all(abs(l.length * zoom - s) <= 1e-9 * (s + zoom * (1 + max(map(abs, (x0, y0, x1, y1))))) for l, s in ((area.x, size[0]), (area.y, size[1]))), 'area {}', area)
    if flat is None and len(scene):
        item.scene = None
        ensure(item.scene is None and item.format_coordinate(QPointF(1, 2)) == '', 'no scene')
        item.item_at(QPointF(1, 2))
        item.fit_scene()
        item.pan(QPointF(1, 2))
        item.scene = scene
        ensure(all(abs(a - b) < 1e-12 * (1 + abs(a)) for a, b in zip(item.scene_area.bounding_box, area.bounding_box)), 'area {}', item.scene_area)
    return flat or 'whole'


# -- selection -----------------------------------------------------------------------------------------------------

_target = item(kinds=('circle', 'polygon', 'polyline', 'segment'))


@check.facet(st.tuples(st.tuples(st.tuples(*[P33._point for _ in NAMES]), st.integers(1, 8).flatmap(lambda n: st.lists(_target, min_size=n, max_size=n)), P32._matrix, P33.box()), _size,
                       st.lists(st.tuples(st.one_of(_pixel, st.integers(0, 7)), st.tuples(st.integers(-12, 12), st.integers(-12, 12))), min_size=1, max_size=4)), quick=1200)
def selection(case):
    """A click selects the nearest item within 10 pixels, only"""
    data, size, clicks = case
    coordinates, items, matrix, _ = data
    history = History([data], drawn=False)
    history.resize(size)
    history.set_scene(0)
    scene, model = history.scene, history.model
    named = dict(zip(NAMES, coordinates))
    hit = 0
    for pixel, (dx, dy) in clicks:
        if isinstance(pixel, int):
            # near an item
            kind, positions, extra, *_ = items[pixel % len(items)]
            points = [P32.image(matrix, named[p] if isinstance(p, str) else p) for p in positions]
            p = num.add(points[0], num.polar(extra[0], 30 * pixel)) if kind == 'circle' else num.lerp(points[0], points[1], .25)
            pixel = num.add(model.to_viewport(p), (dx / 2, dy / 2))
        position = model.to_scene(pixel)
        distances = []
        for kind, positions, extra, *_ in items:
            points = [P32.image(matrix, named[p] if isinstance(p, str) else p) for p in positions]
            if kind == 'circle':
                distances.append(abs(num.dist(position, points[0]) - extra[0]))
            else:
                pairs = list(zip(points, points[1:])) + ([(points[-1], points[0])] if kind == 'polygon' else [])
                distances.append(min(num.distance_to_segment(position, *pair) for pair in pairs))
        updates = history.item.updates
        history.item.item_at(QPointF(*pixel))
        ensure(history.item.updates > updates, 'the selection is not painted')
        selected = [i for i, item in enumerate(scene) if item.selected]
        ensure({id(item) for item in scene.selected_items} == {id(item) for item in scene if item.selected}, 'selected items')
        radius, nearest = 10 / model.scale, min(distances)
        slack = 1e-6 * (history.magnitude() + P33.scale_of([(None, [p for p in named.values()], None, None)])) 
        if nearest < radius - slack:
            ensure(len(selected) == 1 and distances[selected[0]] <= nearest + slack, 'selected {} for the distances {} within {}', selected, distances, radius)
            hit += 1
        elif nearest > radius + slack:
            ensure(not selected, 'selected {} for the distances {} within {}', selected, distances, radius)
    return 'selected' if hit else None


# -- other items ---------------------------------------------------------------------------------------------------

@check.facet(st.tuples(_scene, st.booleans()), quick=100)
def refused(case):
    """Rectangles are not dropped silently"""
    data, visible = case
    scene, _ = build(data)
    new = scene.rectangle(Vector2D(1, 2), Vector2D(3, 5), GraphicPathStyle(), user_data=None)
    new.visible = visible
    try:
        QtPainter(scene).to_svg(Path(scratch(), 'refused.svg'))
    except NotImplementedError:
        ensure(visible, 'hidden items are drawn')
        return 'refused'
    ensure(not visible, 'a rectangle is dropped')
    return None
