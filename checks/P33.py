"""P33 — Exported drawings contain every item at its place"""

import base64
import os
import re
import zlib
from pathlib import Path
from xml.etree import ElementTree

os.environ['MPLBACKEND'] = 'Agg'

import ezdxf
import matplotlib.pyplot as plt
from hypothesis import strategies as st

from IntervalArithmetic import Interval2D
from Patro.GeometryEngine.Vector import Vector2D
from Patro.GraphicEngine.GraphicScene.GraphicStyle import Font, GraphicPathStyle
from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
from Patro.GraphicEngine.Painter.DxfPainter import DxfPainter
from Patro.GraphicEngine.Painter.MplPainter import MplPainter
from Patro.GraphicEngine.Painter.Paper import PaperSize
from Patro.GraphicEngine.Painter.PdfPainter import PdfPainter
from Patro.GraphicEngine.Painter.SvgPainter import SvgPainter
from Patro.GraphicEngine.Painter.TexPainter import TexPainter
from Patro.GraphicEngine.TeX.Document import Document
from Patro.GraphicStyle import Colors, StrokeStyle

from checks import P32
from pbt import gen, num, svgdata
from pbt.harness import Check, ensure, fail
from pbt.scratch import scratch

check = Check(
    'P33',
    rule='Hypothesis generates scenes of texts, dots, segments and cubic curves, at positions or named coordinates, with depths, hidden items, styles, a transformation and a bounding box. '
         'They are exported to TeX (one figure or tiles), SVG, PDF, DXF and Matplotlib; the files are parsed by independent readers of these formats and compared with the list of items '
         'computed on plain data.  A case is non-trivial when the scene has a transformation, a hidden item or several depths, and at least three visible items.',
    assumptions=['texts are plain ASCII texts', 'scales of the drawing: 8 mm or 10 mm for an unit in TeX (rounded to a hundredth of unit), 10 mm in SVG and DXF, 7 mm in PDF with a margin of 1 cm',
                 'PDF drawings have no styles, line widths are not written in DXF', 'dots have a fixed size and are not in DXF drawings'],
)

NAMES = ('A', 'B', 'A1', 'Bp')
CM = 72 / 2.54

_coordinate = st.one_of(st.integers(-60, 60).map(float), st.integers(-60000, 60000).map(lambda i: i / 1000))
_point = st.tuples(_coordinate, _coordinate)
_position = st.one_of(_point, _point, st.sampled_from(NAMES))
_text = st.one_of(st.sampled_from(['A', 'A1', 'Bp', 'front (left)', '1, 2', 'a  b']), st.text('abcXYZ019 .,()-+', min_size=1, max_size=12).map(lambda t: t.strip() or 'x'))
_color = st.one_of(st.sampled_from(['black', 'red', 'green', 'blue', 'brown', 'orange', 'gray', 'purple', 'dirty_blue', 'darkgreen', 'gold']), st.integers(0, 0xffffff).map('#{:06x}'.format))
_width = st.one_of(st.sampled_from([1., .5, 2, 3, 1.5]), st.integers(1, 9999).map(lambda i: i / 1000))
STYLES = ('SolidLine', 'DashLine', 'DotLine', 'DashDotLine', 'DashDotDotLine', 'NoPen')
_style = st.tuples(st.sampled_from(STYLES), _width, _color)
_depth = st.sampled_from([0, 0, 0, 1, 2, -1, .5])
_visible = st.sampled_from([True, True, True, True, False])


@st.composite
def item(draw):
    kind = draw(st.sampled_from(['segment', 'segment', 'cubic', 'cubic', 'text', 'dot']))
    size = dict(segment=2, cubic=4).get(kind, 1)
    return (kind, [draw(_position) for _ in range(size)], draw(_style), draw(_text), draw(_depth), draw(_visible))


@st.composite
def box(draw):
    x, y = draw(_point)
    return (x, y, x + draw(st.integers(1, 9000)) / 100, y + draw(st.integers(1, 9000)) / 100)


drawing = st.tuples(
    st.tuples(*[_point for _ in NAMES]), st.integers(0, 9).flatmap(lambda n: st.lists(item(), min_size=n, max_size=n)), P32._matrix, box(),
    st.tuples(st.sampled_from(['A4', 'a4', 'A3', 'A0']), st.sampled_from(['portrait', 'landscape']), st.integers(0, 25)),
)


def build(case):
    """Return the scene and the expected list of (kind, points, style, text)"""
    coordinates, items, matrix, box, _ = case
    scene = GraphicScene(P32.transformation_of(matrix))
    scene.bounding_box = Interval2D((box[0], box[2]), (box[1], box[3]))
    named = dict(zip(NAMES, coordinates))
    for name, p in named.items():
        scene.add_coordinate(name, Vector2D(*p))
    expected = []
    for kind, positions, (stroke, width, color), text, depth, visible in items:
        style = GraphicPathStyle(stroke_style=StrokeStyle[stroke], line_width=width, stroke_color=color)
        args = [p if isinstance(p, str) else Vector2D(*p) for p in positions]
        if kind == 'segment':
            new = scene.segment(*args, style, user_data=None)
        elif kind == 'cubic':
            new = scene.cubic_bezier(*args, style, user_data=None)
        elif kind == 'text':
            new = scene.text(*args, text, Font('Arial', 10), user_data=None)
        else:
            new = scene.circle(*args, .2, style, user_data=None)
        new.z_value, new.visible = depth, visible
        if visible:
            points = [P32.image(matrix, named[p] if isinstance(p, str) else p) for p in positions]
            expected.append((depth, len(expected), (kind, points, (stroke, width, rgb_of(color)), text)))
    return scene, [e[-1] for e in sorted(expected, key=lambda e: e[:2])]


def check_scene(scene, case):
    """An export does not change the scene"""
    coordinates, items, _, box, _ = case
    actual = (scene.bounding_box.x.inf, scene.bounding_box.y.inf, scene.bounding_box.x.sup, scene.bounding_box.y.sup)
    ensure(actual == tuple(map(float, box)), 'the box of the scene is {} after the export, was {}', actual, box)
    ensure([(c.name, (float(c.position.x), float(c.position.y))) for c in scene.coordinates] == [(n, tuple(map(float, p))) for n, p in zip(NAMES, coordinates)],
           'coordinates after the export')
    ensure(len(scene) == len(items), 'number of items after the export')
    for item, (kind, positions, (stroke, width, color), text, depth, visible) in zip(scene, items):
        for p, q in zip(item.positions, positions):
            ensure(p == q if isinstance(q, str) else (float(p.x), float(p.y)) == tuple(map(float, q)), 'position {} of an item after the export, was {}', p, q)
        ensure((item.z_value, item.visible) == (depth, visible), 'item after the export')
        if kind == 'text':
            ensure(item.text == text, 'text after the export')
        else:
            style = item.path_style
            ensure((style.stroke_style, style.line_width) == (StrokeStyle[stroke], width), 'style after the export')


def rgb_of(color):
    if color.startswith('#'):
        return tuple(int(color[i:i + 2], 16) for i in (1, 3, 5))
    c = Colors[color]
    return (c.red, c.green, c.blue)


def label_of(case, expected):
    _, items, matrix, _, _ = case
    if len(expected) < 3:
        return None
    if len(items) > len(expected):
        return 'hidden'
    if len({i[4] for i in items}) > 1:
        return 'depths'
    return None if matrix == svgdata.IDENTITY else 'transformed'


def scale_of(expected):
    return 1 + max((num.magnitude_of(*points) for _, points, _, _ in expected), default=0)


def compare(actual, expected, mapping, atol, styled=True, text=True):
    """Compare (kind, points, style, text) in order, *mapping* gives the position in the drawing"""
    what = 'items {} for {}'.format(actual, expected)
    ensure([a[0] for a in actual] == [e[0] for e in expected], 'kinds of {}', what)
    for a, e in zip(actual, expected):
        points = [mapping(p) for p in e[1]]
        ensure(len(a[1]) == len(points) and all(abs(x - y) <= atol for p, q in zip(a[1], points) for x, y in zip(p, q)), '{} is at {} instead of {}', e, a[1], points)
        if e[0] == 'text' and text:
            ensure(a[3] == e[3], 'text {!r} instead of {!r}', a[3], e[3])
        if styled and e[0] in ('segment', 'cubic'):
            styled_like(a[2], e)


def styled_like(style, item):
    """*style* is (visible, width or None, rgb, dashes)"""
    visible, width, rgb, dashes = style
    stroke, expected_width, expected_rgb = item[2]
    ensure(visible == (stroke != 'NoPen'), 'visibility of {}', item)
    if not visible:
        return
    ensure(width is None or abs(width - expected_width) < 1e-9 * (1 + expected_width), 'width {} of {}', width, item)
    ensure(rgb == expected_rgb, 'colour {} of {}', rgb, item)
    n = dict(SolidLine=0, DashLine=2, DotLine=2, DashDotLine=4, DashDotDotLine=6)[stroke]
    ensure(len(dashes) == n, 'dashes {} of {}', dashes, item)
    if n > 2:
        ensure(dashes[0] > dashes[2] and set(dashes[2::2]) == {dashes[2]}, 'dashes {} of {}', dashes, item)


def one_of_each(styles):
    """Dashes are longer than dots"""
    by_stroke = {stroke: dashes for stroke, dashes in styles}
    if 'DashLine' in by_stroke and 'DotLine' in by_stroke:
        ensure(by_stroke['DashLine'][0] > by_stroke['DotLine'][0], 'dashes {}', by_stroke)


def check_dashes(actual, expected):
    one_of_each([(e[2][0], a[2][3]) for a, e in zip(actual, expected) if e[0] in ('segment', 'cubic')])


# -- TeX -----------------------------------------------------------------------------------------------------------

NUMBER = r'[-+0-9.eE]+'
POSITION = r'\(\s*([^()]+?)\s*\)'


class TexFigure:

    def __init__(self, options, source):
        self.options = dict(o.split('=') for o in re.sub(r'\s', '', options).split(',') if o)
        self.coordinates, self.items, self.clip, self.label = {}, [], None, None
        for line in source.split('\n'):
            self.read(line.strip())

    def position(self, text):
        text = text.strip()
        if text in self.coordinates:
            return self.coordinates[text]
        if ',' not in text:
            fail('{} is not a coordinate of the figure', text)
        return tuple(float(x) for x in text.split(','))

    def read(self, line):
        if not line or line.startswith((r'\fontsize', r'\color', '%')):
            return
        match = re.fullmatch(r'\\coordinate\s*\(([^()]+)\)\s*at\s*' + POSITION + r'\s*;', line)
        if match:
            ensure(match.group(1) not in self.coordinates, 'coordinate {} twice', match.group(1))
            self.coordinates[match.group(1)] = self.position(match.group(2))
            return
        match = re.fullmatch(r'\\fill\s*\[(.*?)\]\s*' + POSITION + r'\s*circle\s*\(.*\)\s*;', line)
        if match:
            self.items.append(('dot', [self.position(match.group(2))], None, None))
            return
        match = re.fullmatch(r'\\draw\s*\[(.*?)\]\s*' + POSITION + r'\s*node\s*\[(.*?)\]\s*\{(.*)\}\s*;', line)
        if match:
            position, anchor, text = self.position(match.group(2)), match.group(3), match.group(4)
            if 'south' in anchor:
                ensure(self.label is None and not self.items, 'label {}', line)
                self.label = (position, text)
            else:
                self.items.append(('text', [position], None, text))
            return
        match = re.fullmatch(r'\\draw\s*\[((?:[^][{}]|\{[^{}]*\})*)\]\s*(.*);', line)
        if not match:
            fail('unknown line {}', line)
        options, path = match.groups()
        positions = [self.position(p) for p in re.findall(POSITION, path)]
        skeleton = re.sub(POSITION, '.', path).replace(' ', '')
        if options.strip() == 'clip':
            ensure(skeleton == '.--.--.--.--cycle' and not self.items and self.clip is None, 'clip {}', line)
            self.clip = positions
        elif skeleton == '.--.':
            self.items.append(('segment', positions, self.style(options), None))
        elif skeleton == '...controls.and....':
            self.items.append(('cubic', positions, self.style(options), None))
        else:
            fail('unknown path {}', line)

    def style(self, options):
        visible, width, rgb, dashes = True, None, None, None
        for option in re.findall(r'(?:[^,{}]|\{[^{}]*\})+', options):
            option = option.strip()
            key, _, value = option.partition('=')
            if option == 'draw=none':
                visible = False
            elif key == 'line width':
                width = float(value.replace('pt', ''))
            elif key == 'dash pattern':
                dashes = [float(x) for x in re.findall(r'(?:on|off)\s+([0-9.]+)mm', value)]
            elif option == 'solid':
                dashes = []
            elif key == 'color' and value.startswith('{rgb'):
                rgb = tuple(int(x) for x in re.findall(r'(?:red|green|blue),(\d+)', value))
            elif option in ('black', 'red', 'green', 'blue') or (key == 'color' and value in ('black', 'red', 'green', 'blue')):
                rgb = rgb_of(option.replace('color=', ''))
            else:
                fail('option {} of {}', option, options)
        return (visible, width, rgb, dashes)


def read_tex(source):
    ensure(re.match(r'\\documentclass\[12pt\]\{article\}\n', source), 'class of the document')
    ensure(source.count(r'\begin{document}') == source.count(r'\end{document}') == 1, 'document')
    preamble, body = source.split(r'\begin{document}')
    stack = []
    for kind, name in re.findall(r'\\(begin|end)\{(\w+)\}', body.replace(r'\end{document}', '')):
        if kind == 'begin':
            stack.append(name)
        else:
            ensure(stack and stack.pop() == name, 'environment {}', name)
    ensure(not stack, 'open environments {}', stack)
    paper = re.search(r'paper=(\w+)', preamble).group(1), float(re.search(r'margin=([\d.]+)mm', preamble).group(1))
    figures = re.findall(r'\\begin\{tikzpicture\}\[(.*?)\](.*?)\\end\{tikzpicture\}', body, re.S)
    return paper, [TexFigure(*f) for f in figures]


@check.facet(st.tuples(drawing, st.sampled_from(['one', 'one', 'tiled', 'both']), st.booleans()), quick=1200)
def tex(case):
    data, mode, as_path = case
    coordinates, _, matrix, box, paper = data
    scene, expected = build(data)
    export_tex(scene, expected, {name: P32.image(matrix, p) for name, p in zip(NAMES, coordinates)}, box, paper, mode, as_path)
    check_scene(scene, data)
    return label_of(data, expected)


def export_tex(scene, expected, named, box, paper, mode, as_path):
    path = Path(scratch(), 'figure' if mode == 'one' else 'figure.tex')
    path.unlink(missing_ok=True)
    painter = TexPainter(path if as_path else str(path), scene, PaperSize(*paper))
    if mode != 'tiled':
        painter.add_detail_figure()
    if mode != 'one':
        painter.add_tiled_detail_figure()
    document = next(x for x in vars(painter).values() if isinstance(x, Document))
    ensure(document.tex_filename == str(Path(scratch(), 'figure.tex')) and document.output_directory == scratch(), 'file name {}', document.tex_filename)
    document.write()
    source = Path(scratch(), 'figure.tex').read_text()
    ensure(source == str(document), 'the file is not the document')
    (paper_name, margin), figures = read_tex(source)
    ensure(paper_name == paper[0].lower() + 'paper' and margin == paper[2], 'paper {} {}', paper_name, margin)
    scale = scale_of(expected) + max(num.magnitude_of(p) for p in named.values())
    atol = .005 + 1e-9 * scale
    if mode != 'tiled':
        ensure(figures[0].clip is None and figures[0].label is None and figures[0].options == dict(x='8mm', y='8mm'), 'options {}', figures[0].options)
        tiles = figures[1:]
    else:
        tiles = figures
    for figure in figures:
        ensure(set(figure.coordinates) == set(named), 'coordinates {}', figure.coordinates)
        for name, p in figure.coordinates.items():
            ensure(num.dist(p, named[name]) <= 2 * atol, 'coordinate {} at {} instead of {}', name, p, named[name])
        compare(figure.items, expected, lambda p: p, atol)
        check_dashes(figure.items, expected)
    if mode == 'one':
        ensure(not tiles, 'figures {}', len(figures))
    else:
        check_tiles(tiles, box, paper)


def check_tiles(tiles, box, paper):
    size = PaperSize(*paper)
    width, height = [(s - 2 * (paper[2] + 2)) / 10 for s in (size.width, size.height)]
    x0, y0 = box[0] - 1, box[1] - 1
    columns, rows = (box[2] + 1 - x0) / width, (box[3] + 1 - y0) / height
    if min(abs(n - round(n)) for n in (columns, rows)) < 1e-6:
        return
    columns, rows = -int(-columns // 1), -int(-rows // 1)
    ensure(len(tiles) == rows * columns, '{} tiles for {} rows and {} columns', len(tiles), rows, columns)
    seen = set()
    for tile in tiles:
        ensure(tile.options == dict(x='10mm', y='10mm'), 'options {}', tile.options)
        (x, y), text = tile.label
        r, c = [int(t) for t in text.split(',')]
        ensure(1 <= r <= rows and 1 <= c <= columns and (r, c) not in seen, 'tile {}', text)
        seen.add((r, c))
        left, bottom = x0 + (c - 1) * width, y0 + (r - 1) * height
        ensure(abs(x - left - 1) < 1e-6 and abs(y - bottom - 1) < 1e-6, 'label of the tile {} at {}', text, (x, y))
        corners = [(left, bottom), (left + width, bottom), (left + width, bottom + height), (left, bottom + height)]
        ensure(all(abs(a - b) <= .005 + 1e-9 for p, q in zip(tile.clip, corners) for a, b in zip(p, q)), 'clip {} instead of {}', tile.clip, corners)


# -- SVG -----------------------------------------------------------------------------------------------------------

CSS = dict(black=(0, 0, 0), red=(255, 0, 0), blue=(0, 0, 255), white=(255, 255, 255), lime=(0, 255, 0), green=(0, 128, 0), brown=(165, 42, 42), orange=(255, 165, 0), gray=(128, 128, 128),
           purple=(128, 0, 128), darkgreen=(0, 100, 0), gold=(255, 215, 0))


def svg_rgb(text):
    if text.startswith('#'):
        return tuple(int(text[i:i + 2], 16) for i in (1, 3, 5))
    ensure(text in CSS, 'colour {}', text)
    return CSS[text]


def read_svg(path):
    root = ElementTree.parse(str(path)).getroot()
    items = []
    for node in root:
        tag, a = node.tag.split('}')[-1], node.attrib
        if tag == 'style':
            continue
        ensure('transform' not in a, 'transformation of {}', tag)
        if tag == 'text':
            ensure(svg_rgb(a.get('fill', 'black')) == (0, 0, 0), 'colour of a text')
            items.append(('text', [(float(a['x']), float(a['y']))], None, node.text))
            continue
        if tag == 'circle':
            ensure(float(a['r']) > 0 and svg_rgb(a.get('fill', 'black')) == (0, 0, 0), 'dot')
            items.append(('dot', [(float(a['cx']), float(a['cy']))], None, None))
            continue
        stroke = a.get('stroke', 'none')
        dashes = [float(x) for x in re.split(r'[\s,]+', a['stroke-dasharray'])] if a.get('stroke-dasharray', 'none') != 'none' else []
        style = (stroke != 'none', float(a['stroke-width']), None if stroke == 'none' else svg_rgb(stroke), dashes)
        if tag == 'line':
            items.append(('segment', [(float(a['x1']), float(a['y1'])), (float(a['x2']), float(a['y2']))], style, None))
        else:
            ensure(tag == 'path' and a.get('fill') == 'none', 'element {} {}', tag, a)
            pieces = svgdata.to_pieces(svgdata.parse(a['d']))
            ensure(len(pieces) == 1 and pieces[0][0] == 'cubic', 'path {}', a['d'])
            items.append(('cubic', [tuple(p) for p in pieces[0][1]], style, None))
    view = [float(x) for x in root.attrib['viewBox'].split()]
    return items, view, root.attrib['width'], root.attrib['height']


@check.facet(drawing, quick=1500)
def svg(case):
    _, _, _, box, paper = case
    scene, expected = build(case)
    export_svg(scene, expected, box, paper)
    check_scene(scene, case)
    return label_of(case, expected)


def export_svg(scene, expected, box, paper):
    path = Path(scratch(), 'drawing.svg')
    path.unlink(missing_ok=True)
    SvgPainter(path, scene, PaperSize(*paper))
    items, view, width, height = read_svg(path)
    size = PaperSize(*paper)
    ensure(view[:2] == [0, 0] and abs(view[2] - size.width) < 1e-3 and abs(view[3] - size.height) < 1e-3 and width.endswith('mm') and height.endswith('mm'), 'view box {}', view)
    compare(items, expected, lambda p: (10 * (p[0] - box[0]), 10 * (box[3] - p[1])), 1e-9 * 20 * (scale_of(expected) + 200))
    check_dashes(items, expected)


# -- PDF -----------------------------------------------------------------------------------------------------------

TOKEN = re.compile(rb'\((?:\\.|[^\\()]|\((?:\\.|[^\\()])*\))*\)|<[^>]*>|\[|\]|/[^\s/\[\]()<>]+|[-+]?[0-9.]+|[A-Za-z*\']+')


def pdf_string(token):
    text = token[1:-1].decode('latin-1')
    text = re.sub(r'\\([0-7]{1,3})', lambda m: chr(int(m.group(1), 8)), text)
    return re.sub(r'\\(.)', r'\1', text)


def multiply(m, n):
    """Apply m, then n"""
    a, b, c, d, e, f = m
    g, h, i, j, k, l = n
    return (a * g + b * i, a * h + b * j, c * g + d * i, c * h + d * j, e * g + f * i + k, e * h + f * j + l)


def read_pdf(path):
    data = path.read_bytes()
    ensure(data.startswith(b'%PDF') and data.rstrip().endswith(b'%%EOF'), 'file')
    ensure(len(re.findall(rb'/Type\s*/Page\b', data)) == 1, 'number of pages')
    media = [float(x) for x in re.search(rb'/MediaBox\s*\[(.*?)\]', data).group(1).split()]
    streams = []
    for head, stream in re.findall(rb'<<([^>]*?)>>\s*stream\r?\n(.*?)endstream', data, re.S):
        if b'ASCII85Decode' in head:
            stream = base64.a85decode(stream.strip(), adobe=False) if not stream.strip().endswith(b'~>') else base64.a85decode(b'<~' + stream.strip(), adobe=True)
        if b'FlateDecode' in head:
            stream = zlib.decompress(stream)
        streams.append(stream)
    ensure(len(streams) == 1, 'streams')
    items, stack, path_, operands = [], [], [], []
    matrix, fill, text_matrix = (1., 0., 0., 1., 0., 0.), None, None
    for token in TOKEN.findall(streams[0]):
        if re.fullmatch(rb'[-+]?[0-9.]+', token):
            operands.append(float(token))
            continue
        if token[:1] in b'(<[]/':
            operands.append(token)
            continue
        op, args = token.decode(), operands
        operands = []
        numbers = [a for a in args if isinstance(a, float)]
        apply = lambda p, m=matrix: P32.image(m, p)
        if op == 'q':
            stack.append((matrix, fill))
        elif op == 'Q':
            matrix, fill = stack.pop()
        elif op == 'cm':
            matrix = multiply(tuple(numbers), matrix)
        elif op in ('rg', 'g', 'k'):
            fill = tuple(numbers)
        elif op == 'm':
            path_.append([('m', apply(numbers))])
        elif op == 'l':
            path_[-1].append(('l', apply(numbers)))
        elif op == 'c':
            path_[-1].append(('c', apply(numbers[:2]), apply(numbers[2:4]), apply(numbers[4:])))
        elif op == 'h':
            pass
        elif op in ('S', 's', 'f', 'b', 'B', 'f*', 'b*', 'B*', 'n'):
            for sub in path_:
                kinds = [c[0] for c in sub]
                start = sub[0][1]
                if op in ('f', 'b', 'B', 'f*', 'b*', 'B*'):
                    ensure(kinds == ['m', 'c', 'c', 'c', 'c'] and fill in ((0., 0., 0.), (0.,)), 'filled shape {} {}', kinds, fill)
                    points = [c[-1] for c in sub]
                    centre = num.mul(num.add(points[0], points[2]), .5)
                    ensure(all(abs(num.dist(p, centre) - 2 * 72 / 25.4) < 1e-2 for p in points), 'dot {}', sub)
                    items.append(('dot', [centre], None, None))
                elif kinds == ['m', 'l']:
                    items.append(('segment', [start, sub[1][1]], None, None))
                elif kinds == ['m', 'c']:
                    items.append(('cubic', [start] + list(sub[1][1:]), None, None))
                else:
                    fail('shape {}', sub)
            path_ = []
        elif op == 'BT':
            text_matrix = (1., 0., 0., 1., 0., 0.)
        elif op == 'Tm':
            text_matrix = tuple(numbers)
        elif op == 'Td':
            text_matrix = multiply((1., 0., 0., 1.) + tuple(numbers), text_matrix)
        elif op == 'Tj':
            items.append(('text', [P32.image(multiply(text_matrix, matrix), (0., 0.))], None, pdf_string(args[-1])))
    ensure(not stack and not path_, 'unfinished drawing')
    return items, media


@check.facet(st.tuples(drawing, st.booleans()), quick=1200)
def pdf(case):
    data, driver = case
    _, _, _, box, paper = data
    scene, expected = build(data)
    export_pdf(scene, expected, box, paper, driver)
    check_scene(scene, data)
    return label_of(data, expected)


def export_pdf(scene, expected, box, paper, driver):
    path = Path(scratch(), 'drawing.pdf')
    path.unlink(missing_ok=True)
    PdfPainter(path, scene, PaperSize(*paper), **(dict(driver='reportlab') if driver else {}))
    items, media = read_pdf(path)
    size = PaperSize(*paper)
    ensure(all(abs(a - b) < 1e-2 for a, b in zip(media, (0, 0, size.width * 72 / 25.4, size.height * 72 / 25.4))), 'page {}', media)
    compare(items, expected, lambda p: (CM * (1 + .7 * (p[0] - box[0])), CM * (1 + .7 * (p[1] - box[1]))), 1e-3 + 1e-6 * scale_of(expected) * CM, styled=False)


# -- DXF -----------------------------------------------------------------------------------------------------------

ACI = {0: (0, 0, 0), 7: (0, 0, 0), 250: (0, 0, 0), 1: (255, 0, 0), 2: (255, 255, 0), 3: (0, 255, 0), 4: (0, 255, 255), 5: (0, 0, 255), 6: (255, 0, 255)}


def read_dxf(document):
    line_types = {t.dxf.name.lower(): t for t in document.linetypes}
    items = []
    for entity in document.modelspace():
        kind, dxf = entity.dxftype(), entity.dxf
        if kind == 'TEXT':
            _, p, _ = entity.get_placement()
            items.append(('text', [(p.x, p.y)], None, dxf.text))
            continue
        line_type = dxf.get('linetype', 'BYLAYER').lower()
        ensure(line_type in line_types, 'line type {}', line_type)
        dashes = [abs(float(t.value)) for t in line_types[line_type].pattern_tags.tags if t.code == 49]
        if dashes and dashes[0] == 0:
            dashes[0] = 1e-3   # dot
        rgb = entity.rgb if entity.rgb is not None else ACI.get(dxf.get('color', 256))
        style = (not dxf.get('invisible', 0), None, rgb and tuple(rgb), dashes)
        if kind == 'LINE':
            items.append(('segment', [(p.x, p.y) for p in (dxf.start, dxf.end)], style, None))
        else:
            ensure(kind == 'SPLINE' and dxf.degree == 3, 'entity {}', kind)
            ensure(all(p[2] == 0 for p in entity.control_points), 'points {} out of the plane', list(entity.control_points))
            points = [(p[0], p[1]) for p in entity.control_points]
            knots = list(entity.knots)
            ensure(len(points) == 4 and len(set(knots[:4])) == 1 and len(set(knots[4:])) == 1 and knots[0] < knots[4], 'knots {}', knots)
            items.append(('cubic', points, style, None))
    return items


@check.facet(st.tuples(drawing, st.sampled_from([None, None, 'R2010', 'R2018', 'R2004'])), quick=600)
def dxf(case):
    data, version = case
    scene, expected = build(data)
    export_dxf(scene, expected, data[-1], version)
    check_scene(scene, data)
    return label_of(data, expected)


def export_dxf(scene, expected, paper, version):
    path = Path(scratch(), 'drawing.dxf')
    path.unlink(missing_ok=True)
    # the driver can be named
    driver = {} if version in (None, 'R2018') else dict(driver='ezdxf')
    DxfPainter(path, scene, PaperSize(*paper), **driver, **({} if version is None else dict(dxf_version=version)))
    document = ezdxf.readfile(path)
    ensure(version is None or document.acad_release == version, 'version {} for {}', document.acad_release, version)
    items = read_dxf(document)
    expected = [e for e in expected if e[0] != 'dot']
    compare(items, expected, lambda p: (10 * p[0], 10 * p[1]), 1e-9 * 10 * (1 + scale_of(expected)))
    check_dashes(items, expected)


# -- Matplotlib ----------------------------------------------------------------------------------------------------

def read_mpl(axes):
    from matplotlib.colors import to_rgb
    from matplotlib.patches import Circle, PathPatch
    from matplotlib.text import Text
    items = []
    decorations = {axes.title, axes._left_title, axes._right_title}
    for artist in axes.get_children():
        if isinstance(artist, Text) and artist not in decorations:
            items.append(('text', [tuple(artist.get_position())], None, artist.get_text()))
        elif isinstance(artist, Circle):
            items.append(('dot', [tuple(artist.get_center())], None, None))
        elif isinstance(artist, PathPatch):
            path = artist.get_path()
            vertices = [tuple(float(x) for x in p) for p in path.vertices]
            codes = list(path.codes)
            kind = {(1, 2): 'segment', (1, 4, 4, 4): 'cubic'}.get(tuple(codes))
            color = artist.get_edgecolor()
            line_style = artist.get_linestyle()
            visible = color[3] > 0 and str(line_style).lower() not in ('none', '', ' ')
            offset, dashes = artist._dash_pattern
            style = (visible, artist.get_linewidth(), tuple(round(255 * x) for x in to_rgb(color)), list(dashes or []))
            items.append((kind, vertices, style, None))
    return items


@check.facet(drawing, quick=250)
def mpl(case):
    _, _, _, box, paper = case
    scene, expected = build(case)
    plt.close('all')
    try:
        MplPainter(scene, PaperSize(*paper))
        axes, = plt.gcf().axes
        ensure(axes.get_xlim()[0] < box[0] and axes.get_xlim()[1] > box[2] and axes.get_ylim()[0] < box[1] and axes.get_ylim()[1] > box[3], 'limits of the axes')
        items = read_mpl(axes)
    finally:
        plt.close('all')
    # lengths of dashes depend on the line width
    compare(items, expected, lambda p: p, 1e-9 * (1 + scale_of(expected)))
    check_scene(scene, case)
    return label_of(case, expected)


# -- other items ---------------------------------------------------------------------------------------------------

@check.facet(st.tuples(drawing, st.sampled_from(['rectangle', 'ellipse', 'polyline', 'polygon', 'quadratic']), st.sampled_from(['tex', 'svg', 'pdf', 'dxf']), st.booleans()), quick=200)
def refused(case):
    """Other items are not dropped silently"""
    data, kind, output, visible = case
    scene, _ = build(data)
    style = GraphicPathStyle()
    if kind == 'ellipse':
        new = scene.ellipse(Vector2D(1, 2), 2, 1, 0, style, user_data=None)
    elif kind == 'rectangle':
        new = scene.rectangle(Vector2D(1, 2), Vector2D(3, 5), style, user_data=None)
    elif kind == 'quadratic':
        new = scene.quadratic_bezier(Vector2D(1, 2), Vector2D(3, 5), Vector2D(0, 5), style, user_data=None)
    else:
        new = getattr(scene, kind)([Vector2D(1, 2), Vector2D(3, 5), Vector2D(0, 5)], style, user_data=None)
    new.visible = visible
    paper = PaperSize(*data[-1])
    path = Path(scratch(), 'refused.' + output)
    try:
        if output == 'tex':
            TexPainter(path, scene, paper).add_detail_figure()
        else:
            dict(svg=SvgPainter, pdf=PdfPainter, dxf=DxfPainter)[output](path, scene, paper)
    except NotImplementedError:
        ensure(visible, 'hidden items are drawn')
        return 'refused'
    ensure(not visible, '{} in a {} drawing is dropped', kind, output)
    return None
